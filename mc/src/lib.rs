pub mod explore;
pub mod fam;
pub mod gf;
pub mod huge;
pub mod mat;
pub mod num;
pub mod points;
pub mod rig;
pub mod steps;
pub mod bufs;
pub mod pre;
