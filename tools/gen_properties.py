#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json
D="mlx9064x/src/driver.rs"; C="mlx9064x/src/calculations.rs"; M="mlx9064x/src/common.rs"; R="mlx9064x/src/register.rs"
E0="mlx9064x/src/mlx90640/eeprom.rs"; E1="mlx9064x/src/mlx90641/eeprom.rs"; M0="mlx9064x/src/mlx90640/mod.rs"; M1="mlx9064x/src/mlx90641/mod.rs"
H="mlx9064x/src/mlx90641/hamming.rs"; ER="mlx9064x/src/error.rs"; U="mlx9064x/src/util.rs"; A0="mlx9064x/src/mlx90640/address.rs"; A1="mlx9064x/src/mlx90641/address.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
p("C01","Every delivered image is the datasheet's image of one camera frame",
 "Whenever an image call succeeds, every non-failed pixel of the subpage it covers holds the temperature (or raw IR value) that the camera's datasheet formulas give for the frame in the camera's memory, this camera's factory calibration and the settings in force, to within single-precision rounding, and the reported ambient temperature is that frame's. This holds for both camera models, every calibration, access pattern, ADC resolution, subpage, emissivity and reflected temperature, and whatever happened before (failed calls, camera resets, other subpages' frames). An image is never a mixture of two frames.",
 ["histories","fault_sequences","configurations","inputs","schedules"],
 "all factory calibrations and frames of both models; all control-register configurations; all histories of image, setting and failed calls; camera publishing at any instant relative to the reads",
 "The tests check three recorded frames (one pixel for two of them) at the default configuration, on a mock whose memory never changes during a call and whose reads never fail.",
 [D,C,E0,E1,M0,M1,M],
 [("generate_image_* reads RAM then converts only valid pixels",D),("raw_pixels_to_temperatures / raw_pixels_to_ir_data",C),("calibration decoding",E0+", "+E1),("pixel and RAM address maps",M0+", "+M1)],
 [("pixel_buffer","raw words of the last read",D),("resolution_correction, access_pattern","how the next frame is decoded",D)],
 ["destination buffer of generate_image_to / _subpage_to / _if_ready / generate_raw_image_subpage_to","ambient_temperature()"])
p("C02","An image call touches only its own pixels of the caller's buffer",
 "An image call writes only the pixels that belong to the subpage being delivered: the other subpage's pixels and anything beyond the image keep their exact previous bits, and a buffer shorter than the image is filled as far as it goes. After a successful call every pixel of the subpage that fits has been written. A call that reports 'not ready', or fails before the frame has been read completely, leaves the buffer bit-for-bit unchanged.",
 ["histories","fault_sequences","inputs","configurations"],
 "all buffer lengths and previous contents, subpages, access patterns, both models, and a bus failure at any transaction of the call",
 "The tests look at one not-ready call on a NaN buffer; none injects a bus failure, uses a short or oversized buffer, or checks the other subpage's pixels.",
 [D,C,M0,M1],[("valid_pixels filter while zipping",C),("pixels_in_subpage iterators",M0+", "+M1),("RAM is read into a private buffer first",D)],
 [("pixel_buffer","raw words, private to the driver",D)],["destination buffer before and after each call"])
p("C03","A frame is acknowledged only after its image was delivered",
 "The call that delivers images only when ready reports true exactly when the camera had flagged a new frame, and in that case delivers that frame and then clears the flag; otherwise it reports false and changes nothing on the camera. If the call fails before the image has been delivered, the frame stays flagged so that a retry delivers it. No other call clears the flag of an undelivered frame, except the explicit reset call, which clears whatever is flagged, and the synchronise call.",
 ["histories","fault_sequences","crash_points","schedules"],
 "all interleavings of the camera's frame timer with the driver's transactions, and a bus failure or host crash at any transaction",
 "The tests toggle the mock's flag by hand between calls; the mock never publishes a frame during a call and never fails a transaction.",
 [D,R],[("generate_image_if_ready reads status, RAM, converts, then writes status",D),("reset_new_data",R)],
 [("status bit 3","new frame available, set by camera and cleared by host",R)],["camera status register","return value of generate_image_if_ready"])
p("C04","Images are decoded with the access pattern and resolution in use",
 "Every image is read and decoded using the access pattern and ADC resolution that the driver last read from the camera or successfully wrote to it, never with settings whose write the camera rejected. A successful change of access pattern or resolution therefore takes effect on the very next image, and any call that reads those settings brings the driver back in step with a camera that was reset or reconfigured by someone else.",
 ["histories","fault_sequences","configurations"],
 "all sequences of setters, getters, failed register writes (refused, or applied with the acknowledgement lost), camera resets and third-party reconfiguration, on both models",
 "No test changes the access pattern or resolution and then reads an image, and none fails a register write.",
 [D,R,M0,M1],[("update_control_register keeps the decode cache",D),("resolution_correction",M0+", "+M1)],
 [("access_pattern, resolution_correction","decode cache",D)],["destination buffer","addresses read on the bus"])
p("C05","Changing one camera setting changes exactly that setting",
 "After a successful setter call the camera holds the new value, every other field and every reserved bit of its registers is unchanged, and the matching getter returns the new value. A setter that fails because the camera refused a transaction leaves the camera's settings as they were. Getters report what the camera holds and change nothing.",
 ["histories","fault_sequences","configurations","schedules"],
 "all register contents including reserved bits, all setter/getter sequences, all bus faults, and third-party register changes between calls",
 "The tests set a field on a default register image and never check that the camera's other bits survive, nor what a failed read-modify-write leaves behind.",
 [D,R],[("set_register_field! read-modify-write",D),("field masks of the register types",R)],
 [("control and status registers","live camera configuration",R)],["camera registers after each call","getter return values"])
p("C06","Every bus transaction is one the camera supports",
 "The driver only ever talks to the I2C address it was given, reads whole 16-bit words that lie inside one memory region of that camera model, and writes only single registers (status, control, I2C configuration). It never writes to factory calibration memory or RAM, and every register write carries the register's current reserved bits unchanged.",
 ["histories","fault_sequences","configurations","inputs"],
 "all call sequences and configurations of both models, with any data (valid or garbage) coming back from the camera, and all bus faults",
 "The mock accepts any transaction; tests only count transactions for two calls.",
 [D,M,R,C,A0,A1,M0,M1],[("read_ram / pixel_ranges",M),("ToI2C / FromI2C for registers",R),("RamData::from_i2c",C),("EEPROM dump",E0+", "+E1)],(),
 ["every transaction on the simulated bus"])
p("C07","Bus errors surface unchanged, once, and do no lasting harm",
 "If a bus transaction issued by a call fails, that same call returns an error, of the kind matching a failed read or a failed write, carrying the bus's own error value; a call none of whose transactions failed never reports a bus error. After a failed call the driver is usable: once the bus works again the next call behaves as if the failed one had not been made, apart from what the camera itself had already accepted.",
 ["fault_sequences","histories"],
 "every public call of both drivers with a failure at any of its transactions (refused, partially transferred, applied but unacknowledged), repeated and followed by any further calls",
 "The mock bus never returns an error, so no error path is executed by any test.",
 [D,M,R,C,ER],[("map_err into the error type at each transaction",M+", "+R),("early return with ?",D)],(),["return value of each call","behaviour of the following calls"])
p("C08","Synchronise returns only after a fresh measurement, and promptly",
 "Synchronising discards any frame that was already waiting, and returns success only after the camera has completed a measurement after the call was made, leaving that new frame flagged as available. With a working camera and bus it returns within two frame periods, and as soon as the first such frame is flagged; a bus failure while waiting ends the call with that error. It leaves the camera's other settings alone, apart from allowing data to be overwritten.",
 ["schedules","fault_sequences","configurations","histories"],
 "all phases of the frame timer relative to the call, all frame rates, data-hold and step modes, stale flags, and faults at any poll",
 "No test calls synchronise at all (the mock's flag never changes by itself, so it could not return).",
 [D,R],[("synchronize: clear flag, set overwrite and start bits, poll status",D)],[("status bits 3, 4, 5","new data, overwrite enable, start measurement",R)],["simulated time of return","camera publish log","status register"])
p("C09","MLX90641 calibration survives single-bit memory errors",
 "If any number of calibration words of an MLX90641 each have one flipped bit (data or check bit), loading the calibration succeeds and yields exactly the calibration of the undamaged memory, and so the same images. If any used word has two flipped bits, loading fails with the checksum error naming a damaged word as it was read, and never yields a calibration. The published functions that add and check a word's check bits agree with that for every word.",
 ["inputs","fault_sequences"],
 "all factory calibrations, all sets of calibration words and bit positions, whether the flip is in memory or happens in transit and is gone at the next load",
 "The tests check the code on a handful of individual words, not that every calibration word is protected or that a load with damaged words is all-or-nothing.",
 [H,E1],[("validate_checksum",H),("get_hamming_* used for every word",E1)],(),["result of creating the driver / loading calibration","calibration values","images"])
p("C10","Calibration loading is exact and all-or-nothing",
 "Loading calibration either fails with an error or yields, for every calibration parameter and pixel (offsets, sensitivities, temperature and voltage coefficients, compensation pixel, temperature ranges, gradient compensation, interleave corrections, failed and outlier pixel sets), exactly the value the datasheet defines for the camera's stored words. Values that cannot be represented are reported as invalid data, a dump that is too short or whose transfer failed is an error, and loading over the bus equals decoding the same bytes directly.",
 ["inputs","fault_sequences"],
 "all EEPROM contents of both models including extreme scale factors and signs, all dump lengths, and bus faults during the dump",
 "The tests decode one datasheet and one example EEPROM per model; extreme scales, negative references and truncated dumps are not exercised.",
 [E0,E1,U,M],[("from_data / from_i2c",E0+", "+E1),("alpha_correction_coefficients",M),("i16_from_bits and word splitters",U)],(),["CalibrationData accessors","return value of from_data, from_i2c and the driver constructors"])
p("C11","No camera data can panic, hang or poison the driver",
 "Whatever bytes the camera or bus returns - garbage calibration, garbage registers, garbage frames, at any time - and whatever buffer size is passed, every call returns (a value or an error) without panicking, overflowing or looping forever, except that synchronising may wait as long as the camera withholds a frame. Once the camera again returns valid data, results are exactly those of a driver that never saw the garbage.",
 ["inputs","fault_sequences","histories"],
 "all byte contents of EEPROM, registers and RAM, garbled in memory or on the wire, at any point of any history, and all buffer lengths",
 "All tests use well-formed camera contents and exact buffer sizes.",
 [D,C,E0,E1,R,U,M],[("widened intermediate arithmetic",C+", "+E0+", "+E1),("length checks",E0+", "+E1),("masked register fields",R)],(),["absence of panics (overflow checks on)","step budget","images after the garbage stops"])
p("C12","Drivers sharing a bus or a process do not affect each other",
 "Several drivers of either model, whether on one shared bus at different addresses or on separate buses, running in different threads with their transactions interleaved in any order, each behave exactly as if they were alone: the same images, the same errors, and no transaction to or effect on another driver's camera. A cloned driver continues independently of the original.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of the transactions of two or three drivers (at transaction granularity), with faults hitting any of them",
 "The tests run one driver on one mock in one thread.",
 [D,M,R],[("all state is inside the driver value; address passed to every transaction",D)],[("bus, address","per-driver",D)],["per-camera transaction and register logs","images of each driver"])
p("C13","Emissivity and reflected temperature persist and take effect",
 "The emissivity in force is the last override, or else the camera's stored value (1 if the model stores none), and the reflected temperature is the last value set, or else estimated from the frame's own ambient temperature; both survive every camera operation, failure and camera reset, are used by the very next image, and cause no bus traffic. The ambient temperature is absent until the first image and afterwards is always that of the last frame that was decoded, unchanged by calls that fail or find no new frame.",
 ["histories","fault_sequences","configurations"],
 "all sequences of host-side setting changes, camera setting changes, image calls and faults, all finite values",
 "The tests check that the getters return what was set, never that images use it or that it survives failures, resets or other setters.",
 [D,C],[("emissivity, reflected_temperature, ambient_temperature fields",D),("t_ar",C)],[("emissivity / reflected_temperature / ambient_temperature","host-side settings",D)],["getters","images","bus log"])
p("C14","Low-level, two-step and high-level paths give the same image",
 "For the same frame and settings, converting a raw IR image to temperatures afterwards, running the public low-level steps by hand (read calibration, registers and RAM, then convert in one pass, in two, pixel by pixel, or one selection of pixels after another), and asking the high-level driver directly all give the same temperatures and ambient temperature to within rounding, and touch the same pixels. A driver created from a previously loaded calibration behaves like one that loaded it itself.",
 ["histories","configurations","inputs","fault_sequences"],
 "all frames, configurations and calibrations of both models, with faults and retries between the steps",
 "One benchmark runs the low-level path but no test compares the paths, and none outside the default configuration.",
 [C,D,M],[("raw_pixels_to_ir_data + raw_ir_to_temperatures vs raw_pixels_to_temperatures",C),("read_ram",M),("new_with_calibration",D)],(),["buffers produced by each path"])
p("C15","A static scene reads the same in every camera configuration",
 "While the scene, the sensor temperature and the supply voltage stay constant, the temperature reported for every pixel, and the ambient temperature, stay the true ones - within the ADC's quantisation error - whichever ADC resolution, access pattern, frame rate or subpage the camera is switched to, as soon as it delivers frames measured in the new configuration. This holds for sensor gain, supply voltage and sensor temperature anywhere in their operating ranges.",
 ["configurations","histories","inputs"],
 "all scenes, sensor states and calibrations, all sequences of configuration changes including failed ones, all frame-timer phases",
 "The tests never change the resolution before reading an image, and the recorded frames come without a known scene.",
 [C,M0,M1,D],[("resolution correction of supply voltage",C),("interleave compensation",E0),("gain and supply-voltage compensation",C)],(),["images and ambient temperature versus the simulated scene"])
p("C16","Polling once per frame period gets a complete image promptly",
 "An application that calls the deliver-if-ready call once per reported frame period obtains a complete image (every pixel that the subpages being measured cover is refreshed) within a bounded number of polls once bus faults have stopped, for any frame rate the bus can sustain, in every access pattern, whether the camera alternates subpages or repeats one, and after any number of faults, missed frames or camera resets. Each poll delivers at most one frame, and no frame is delivered twice unless the acknowledgement of it failed.",
 ["schedules","fault_sequences","configurations"],
 "all frame rates sustainable at the bus speed, timer phases, CPU delays and fault sequences, both models",
 "No test has a running frame timer, so nothing tests repeated polling against it.",
 [D,R,M0,M1],[("status check, delivery, acknowledge",D),("frame period conversion",R)],(),["number of polls until all pixels are refreshed","frame numbers delivered"])
p("C17","A host crash at any point costs only host-side settings",
 "If the host dies at any bus transaction of any call and a new driver is created, the new driver works with whatever configuration the camera was left in: its getters and images are right for that configuration, a frame that had not been acknowledged is still delivered, and only host-side settings (emissivity override, reflected temperature, last ambient temperature) are back to their defaults. Creating a driver never changes the camera.",
 ["crash_points","histories","configurations"],
 "a crash before or after any transaction of any call, repeated crashes including during start-up, and all camera configurations at restart",
 "No test drops a driver mid-call or creates one on a camera that is not in its default configuration.",
 [D,E0,E1],[("constructor reads control register and caches decode settings",D)],[("access_pattern, resolution_correction","initialised from the camera",D)],["camera registers across restart","first images and getters of the new driver"])
p("C18","Plain value conversions between enums and numbers are exact",
 "Every frame rate, ADC resolution, subpage and access pattern converts to and from its number, register code and duration without loss, and numbers that name no value are rejected.",
 ["inputs"],"all values of four small enums and all f32/u8 inputs",
 "The tests already cover most values; what is left is a pure function of its input.",
 [R],[("From/TryFrom implementations",R)],(),["conversion results"])
p("C19","An application's own calibration is used exactly as given",
 "A driver created from an application's own implementation of the calibration trait computes images and ambient temperatures from exactly the values that implementation returns: every array by pixel and by subpage, the corrections for either access pattern, the compensation pixels of each subpage, the temperature ranges (however many), the nominal supply voltage, and an absent or present gradient coefficient and emissivity. It behaves in every other respect like a driver with the camera's own calibration.",
 ["inputs","configurations","histories","fault_sequences"],
 "all calibration values of both models including ones no camera can store (differing between subpages, corrections in chess mode), all configurations and histories, with bus faults, camera resets and frames completing during calls",
 "The tests only use calibrations decoded from camera memories, in which many values are shared between subpages and patterns, and never build a driver from one.",
 [C,D,M],[("formulas take every value from the CalibrationData argument",C),("new_with_calibration",D)],[("calibration","the implementation given",D)],["images, ambient temperature and default emissivity of the driver","the public low-level functions with the same implementation"])
p("C20","Register values handled by hand mean what the camera holds",
 "A register value that an application reads from a camera, changes through its setters and writes back arrives with exactly the changed fields changed and every other bit as it was read, whatever happened to the camera in between; reading it has no effect and handling it causes no bus traffic. Two values of a register compare equal exactly when every documented field is equal, whatever their reserved bits, and are ordered consistently with that. The documented defaults equal what a camera of that model holds after power-on, and writing them puts it back there.",
 ["histories","inputs","fault_sequences"],
 "all register contents including reserved bits, all sequences of reads, edits, copies, comparisons and writes over a camera that is reset, reconfigured and measuring meanwhile, with failed transactions",
 "The tests convert a few register words to values and back; none compares values that differ in one field, keeps a value across camera events, or writes a default to a camera.",
 [R],[("StatusRegister, ControlRegister, I2cRegister accessors, comparison and conversion",R),("FromI2C / ToI2C for registers",R),("defaults",R)],(),["accessors and comparison of the values","camera registers after a write"])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
