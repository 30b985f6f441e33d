// Very many calls on one driver, beyond what counters of 16 bits hold: the camera is idealised (it measures nothing,
// frames are flagged as the kind of soak needs), each call is checked only for its outcome. The ordinary operations
// after it are judged in full.

/// What the bus does during a soak.
#[derive(Clone, Default)]
pub struct Soak {
    pub cam: usize,
    /// Transactions refused: 1 every one, 2 writes.
    pub refuse: u8,
    /// The frame is flagged when the status has been read so often after the last write.
    pub ready: Option<u64>,
    pub reads: u64,
    /// Error of the last refused transaction.
    pub err: u64,
    pub txns: u64,
    /// Transactions allowed for this call.
    pub left: u64,
}

pub const SOAKS: u64 = 11;
