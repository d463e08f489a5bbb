pub mod choice;
pub mod client;
pub mod crypto;
pub mod driver;
pub mod heap;
pub mod hostile;
pub mod run;
pub mod wire;
pub mod world;
