// keyboard events (types extracted from crossterm, crokey and strict)
verus! {
//@type crossterm:src/event.rs MediaKeyCode derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs ModifierKeyCode derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs KeyCode derive=Structural,PartialEq,Eq,Clone,Copy
//@type strict:src/one_to_three.rs OneToThree
//@type crokey:src/key_combination.rs KeyCombination
// crossterm's bitflags
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub struct KeyModifiers { pub bits: u8 }
impl KeyModifiers {
    pub const SHIFT: KeyModifiers = KeyModifiers { bits: 1 };
    pub const CONTROL: KeyModifiers = KeyModifiers { bits: 2 };
    pub const ALT: KeyModifiers = KeyModifiers { bits: 4 };
    pub const NONE: KeyModifiers = KeyModifiers { bits: 0 };
}
}
