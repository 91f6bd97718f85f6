//! No console: nothing is logged.
pub fn init_with_level(_level: log::Level) -> Result<(), log::SetLoggerError> {
    Ok(())
}
pub fn init() -> Result<(), log::SetLoggerError> {
    Ok(())
}
