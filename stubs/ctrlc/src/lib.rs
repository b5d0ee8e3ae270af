#[derive(Debug)] pub enum Error { NoSuchSignal, MultipleHandlers, System(std::io::Error) }
impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for Error {}
pub fn set_handler<F: FnMut() + 'static + Send>(_f: F) -> Result<(), Error> { unimplemented!() }
