//! Names of the operations, for reports.
pub static mut NAMES: &[&str] = &[];

pub fn op_name(op: u32) -> &'static str {
    unsafe {
        if op == 0 {
            "(none)"
        } else {
            NAMES.get(op as usize - 1).copied().unwrap_or("(unknown)")
        }
    }
}
