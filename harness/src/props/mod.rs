pub mod damage;
pub mod dump;
pub mod pbf;
pub mod par;
pub mod misc;
pub mod faults;
pub mod together;
pub mod broken;
pub mod memory;
pub mod effects;
pub mod fine;
pub mod pipes;
pub mod refuse;
pub mod crowd;
pub mod plain;
pub mod restore;
pub mod sys;
pub mod linear;
pub mod order;
pub mod values;
