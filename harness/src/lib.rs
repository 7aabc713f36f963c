pub mod alloc;
pub mod anyproto;
pub mod audit;
pub mod counting;
pub mod dict;
pub mod engine;
pub mod gen;
pub mod generic;
pub mod hostile;
pub mod io;
pub mod model;
pub mod props;
pub mod schema;
pub mod util;
