//! A tiny scriptable camera on an I2C bus, for demonstrations.
#![allow(dead_code)]
use embedded_hal::blocking::i2c::{Write, WriteRead};
use mlx9064x::Address;
use mlx9064x_test_data as data;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// Register or memory address, number of bytes.
    Read(u16, usize),
    /// Register address, value.
    Write(u16, u16),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fail(pub u32);

impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "bus failure {}", self.0)
    }
}
impl std::error::Error for Fail {}

pub struct State {
    pub eeprom: Vec<u16>,
    /// From 0x0400.
    pub ram: Vec<u16>,
    pub status: u16,
    pub control: u16,
    pub i2c: u16,
    /// The transactions so far, with the I2C address.
    pub log: Vec<(u8, Op)>,
}

impl State {
    pub fn get(&self, address: u16) -> u16 {
        match address {
            0x0400..=0x07ff => self.ram[address as usize - 0x400],
            0x2400..=0x273f => self.eeprom[address as usize - 0x2400],
            0x8000 => self.status,
            0x800d => self.control,
            0x800f => self.i2c,
            _ => 0,
        }
    }
    pub fn writes(&self) -> Vec<(u16, u16)> {
        self.log
            .iter()
            .filter_map(|(_, op)| match op {
                Op::Write(a, v) => Some((*a, *v)),
                _ => None,
            })
            .collect()
    }
}

type Hook = Box<dyn FnMut(&Op, &mut State) -> bool>;

#[derive(Clone)]
pub struct Bus {
    pub state: Rc<RefCell<State>>,
    hook: Rc<RefCell<Option<Hook>>>,
}

impl std::fmt::Debug for Bus {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Bus")
    }
}

impl Bus {
    pub fn new(state: State) -> Self {
        Bus { state: Rc::new(RefCell::new(state)), hook: Rc::new(RefCell::new(None)) }
    }
    /// Called before every transaction; it fails when the hook returns true.
    pub fn before(&self, hook: impl FnMut(&Op, &mut State) -> bool + 'static) {
        *self.hook.borrow_mut() = Some(Box::new(hook));
    }
    /// Every transaction works again.
    pub fn heal(&self) {
        *self.hook.borrow_mut() = None;
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        f(&mut self.state.borrow_mut())
    }
    fn start(&self, address: u8, op: Op) -> Result<(), Fail> {
        let mut state = self.state.borrow_mut();
        state.log.push((address, op.clone()));
        let n = state.log.len() as u32;
        if let Some(hook) = self.hook.borrow_mut().as_mut() {
            if hook(&op, &mut state) {
                return Err(Fail(n));
            }
        }
        Ok(())
    }
}

impl WriteRead for Bus {
    type Error = Fail;
    fn write_read(&mut self, address: u8, bytes: &[u8], buffer: &mut [u8]) -> Result<(), Fail> {
        let start = u16::from_be_bytes([bytes[0], bytes[1]]);
        self.start(address, Op::Read(start, buffer.len()))?;
        let state = self.state.borrow();
        for (i, chunk) in buffer.chunks_mut(2).enumerate() {
            let word = state.get(start.wrapping_add(i as u16)).to_be_bytes();
            chunk.copy_from_slice(&word[..chunk.len()]);
        }
        Ok(())
    }
}

impl Write for Bus {
    type Error = Fail;
    fn write(&mut self, address: u8, bytes: &[u8]) -> Result<(), Fail> {
        let register = u16::from_be_bytes([bytes[0], bytes[1]]);
        let value = u16::from_be_bytes([bytes[2], bytes[3]]);
        self.start(address, Op::Write(register, value))?;
        let mut state = self.state.borrow_mut();
        match register {
            // The new data flag can only be cleared, the subpage bits cannot be written.
            0x8000 => state.status = (value & (state.status | !0x8)) & !0x7 | state.status & 0x7,
            0x800d => state.control = value,
            0x800f => state.i2c = value,
            _ => panic!("write to {register:#06x}"),
        }
        Ok(())
    }
}

pub fn words(bytes: &[u8]) -> Vec<u16> {
    bytes.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect()
}

fn with_ram(words: Vec<u16>) -> Vec<u16> {
    let mut ram = words;
    ram.resize(0x400, 0);
    ram
}

/// An MLX90640 with subpage 0 of Melexis' example frame waiting.
pub fn cam640() -> Bus {
    use data::mlx90640_example_data as ex;
    Bus::new(State {
        eeprom: words(ex::EEPROM_DATA),
        ram: with_ram(words(ex::FRAME_0_DATA)),
        status: 0x0008,
        control: 0x1901,
        i2c: 0,
        log: Vec::new(),
    })
}

/// The next frame of the example (subpage 1).
pub fn next_frame_640(state: &mut State) {
    use data::mlx90640_example_data as ex;
    state.ram = with_ram(words(ex::FRAME_1_DATA));
    state.status = state.status & !0x7 | 0x0009;
}

/// The MLX90641 of the datasheet with its example frame (subpage 0) waiting.
pub fn cam641() -> Bus {
    let mock = data::mock_mlx90641_at_address(0x33);
    let ram = mock.get(Address::new(0x0400), data::MLX90641_RAM_LENGTH).unwrap().to_vec();
    Bus::new(State {
        eeprom: words(&data::mlx90641_datasheet_eeprom()),
        ram: with_ram(words(&ram)),
        status: 0x0008,
        control: 0x0901,
        i2c: 0,
        log: Vec::new(),
    })
}

/// Encode an 11-bit value for the MLX90641's EEPROM.
pub fn hamming(value: u16) -> u16 {
    mlx9064x::mlx90641::hamming::add_checksum(value & 0x7ff).unwrap()
}

pub fn same(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.to_bits() == b.to_bits())
}

pub fn close(a: f32, b: f32, eps: f32) -> bool {
    (a - b).abs() <= eps || a.is_nan() && b.is_nan()
}
