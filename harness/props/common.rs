use crate::*;
