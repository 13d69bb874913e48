//! The checks, one per property.
use crate::rt::Check;
pub mod fidelity;
pub mod load;
pub mod robust;
pub mod serde_ck;
pub mod stream;
pub mod util;

pub fn get(id: &str) -> Option<Box<dyn Check>> {
    Some(match id {
        "P01" => Box::new(robust::Memory),
        "P02" => Box::new(robust::Progress),
        "P03" => Box::new(robust::NoPanic),
        "P04" => Box::new(stream::Grammar),
        "P05" => Box::new(stream::Paths),
        "P06" => Box::new(stream::Spans),
        "P07" => Box::new(fidelity::Anchors),
        "P08" => Box::new(fidelity::Tags),
        "P09" => Box::new(fidelity::Structure),
        "P10" => Box::new(fidelity::Scalars),
        "P11" => Box::new(load::Schema),
        "P12" => Box::new(load::Tree),
        "P13" => Box::new(fidelity::Documents),
        "P14" => Box::new(fidelity::Layout),
        "P15" => Box::new(fidelity::Reject),
        "P16" => Box::new(serde_ck::De),
        "P17" => Box::new(serde_ck::Ser),
        "P18" => Box::new(load::Access),
        _ => return None,
    })
}
