pub use crate::cluster_listener::verif as cluster_listener;
pub use crate::utils::verif as utils;
pub use crate::data_store::verif as data_store;
pub use crate::data_manager::verif as data_manager;
pub use crate::training::verif as training;
