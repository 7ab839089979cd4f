use node_tree::prelude::*;
use crate::{ make, text, flag };
use crate::classes::{ Kinds, Open, Broad_Of2 };

class! { pub declare Leaf; }

class! {
    pub declare Args;

    let a: u32;
    let b: String;
    hk _init(a: u32, b: String) {}
}

class! {
    pub declare Fields;

    pub let reg: u32 = 0;
    pub export default let exp: String;
    pub unique let uni: u32 = 0;
    pub default let def: bool;
    pub export let more: Vec<u32> = Vec::new();
}

class! {
    pub declare Both;

    let a: u32;
    pub let set: String = String::new();
    hk _init(a: u32) {}
}

pub fn root() -> NodeScene { scene! { Leaf } }
pub fn named() -> NodeScene { scene! { Leaf: "Named" } }
pub fn params() -> NodeScene { scene! { Args(make(1), text(2)) } }
pub fn params_comma() -> NodeScene { scene! { Args(make(1), text(2),) } }
pub fn params_named() -> NodeScene { scene! { Args(make(1), text(2)): "Given" } }
pub fn path() -> NodeScene { scene! { crate::scenes::Leaf [ crate::classes::Open ] } }
pub fn empty() -> NodeScene { scene! { Leaf [] } }

pub fn children() -> NodeScene {
    scene! {
        Leaf: "Top" [
            Leaf: "First",
            Args(make(1), text(2)): "Second",
            Leaf,
        ]
    }
}

pub fn settings() -> NodeScene {
    scene! {
        Fields {
            reg: make(1),
            exp: text(2),
            uni: make(3),
            def: flag(4)
        }
    }
}

pub fn settings_comma() -> NodeScene { scene! { Fields: "Comma" { def: flag(1), reg: make(2), } } }
pub fn settings_none() -> NodeScene { scene! { Fields {} } }
pub fn settings_sum() -> NodeScene { scene! { Fields { reg: make(1) + make(2), def: !flag(3), uni: make(4) as u32 } } }
pub fn settings_twice() -> NodeScene { scene! { Fields { reg: make(1), exp: text(4), reg: make(2) } } }
pub fn settings_vec() -> NodeScene { scene! { Fields { more: vec![make(1)] } } }

pub fn inner() -> NodeScene {
    scene! {
        Fields: "Top" {
            reg: make(1),
            exp: text(2),
            [
                Leaf: "A",
                Both(make(3)): "B" {
                    set: text(4),
                    [ Leaf: "C", Leaf: "D" [ Leaf: "E" ] ]
                },
                Args(make(5), text(6)): "F" [ Leaf: "G" ]
            ]
        }
    }
}

pub fn only_children() -> NodeScene { scene! { Fields { [ Leaf: "A", Leaf: "B" ] } } }

pub fn linked(one: NodeScene, two: NodeScene) -> NodeScene {
    scene! { Leaf [ $two, Leaf: "A" [ $one, Leaf: "B", $two ], $one ] }
}

/// The names are those that the documentation of the macro uses.
pub fn linked_names(scene: NodeScene, node: NodeScene) -> NodeScene {
    scene! { Leaf [ $node, Leaf: "A" [ $scene, $node ], $scene ] }
}

pub fn value_names(scene: u32, node: u32) -> NodeScene {
    scene! { Fields { reg: node, uni: scene, [ Both(node) { set: text(scene) } ] } }
}

pub fn link_root(one: NodeScene) -> NodeScene { scene! { $one } }

class! {
    pub declare Eight;

    pub let a0: u32;
    pub let a1: u32;
    let a2: u32;
    let a3: u32;
    let a4: u32;
    let a5: u32;
    let a6: u32;
    let a7: u32;
    hk _init(a0: u32, a1: u32, a2: u32, a3: u32, a4: u32, a5: u32, a6: u32, a7: u32) {}
}

class! {
    pub declare Many;

    pub let m0: u32 = 0;
    pub let m1: u32 = 0;
    pub let m2: u32 = 0;
    pub let m3: u32 = 0;
    pub let m4: u32 = 0;
    pub let m5: u32 = 0;
    pub let m6: u32 = 0;
    pub let m7: u32 = 0;
    pub let m8: u32 = 0;
    pub let m9: u32 = 0;
    pub let m10: u32 = 0;
    pub let m11: u32 = 0;
    pub let m12: u32 = 0;
    pub let m13: u32 = 0;
}

pub fn wide() -> NodeScene {
    scene! {
        Leaf: "0" [
            Leaf: "1",
            Leaf: "2",
            Leaf: "3",
            Leaf: "4",
            Leaf: "5",
            Leaf: "6",
            Leaf: "7",
            Leaf: "8",
            Leaf: "9",
            Leaf: "10",
            Leaf: "11",
            Leaf: "12",
            Leaf: "13",
            Leaf: "14",
            Leaf: "15",
            Leaf: "16",
            Leaf: "17",
            Leaf: "18",
            Leaf: "19",
            Leaf: "20",
            Leaf: "21",
            Leaf: "22",
            Leaf: "23",
            Leaf: "24",
            Leaf: "25",
            Leaf: "26",
        ]
    }
}

pub fn deep() -> NodeScene {
    scene! { Both(make(0)): "0" { set: text(100), [ Leaf: "1" [ Leaf: "2" [ Both(make(3)): "3" { set: text(103), [ Leaf: "4" [ Leaf: "5" [ Both(make(6)): "6" { set: text(106), [ Leaf: "7" [ Leaf: "8" [ Both(make(9)): "9" { set: text(109), [ Leaf: "10" [ Leaf: "11" [ Both(make(12)): "12" { set: text(112), [ Leaf: "13" [ Leaf: "end" ] ] } ] ] ] } ] ] ] } ] ] ] } ] ] ] } }
}

pub fn eight() -> NodeScene {
    scene! {
        Eight(make(0), make(1), make(2), make(3), make(4), make(5), make(6), make(7)): "E" {
            a1: make(20),
            a0: make(21),
            [ Eight(make(30), make(31), make(32), make(33), make(34), make(35), make(36), make(37)) ]
        }
    }
}

pub fn many() -> NodeScene {
    scene! {
        Many: "M" {
            m13: make(14),
            m12: make(13),
            m11: make(12),
            m10: make(11),
            m9: make(10),
            m8: make(9),
            m7: make(8),
            m6: make(7),
            m5: make(6),
            m4: make(5),
            m3: make(4),
            m2: make(3),
            m1: make(2),
            m0: make(1),
            [
                Many { m3: make(40), [ Leaf ] }, Leaf: "m3", Many: "M" { m13: make(41), m0: make(42), m7: make(43), },
                Leaf, Leaf, Leaf: "with spaces", Leaf: "", Leaf [ Leaf, Leaf: "Leaf" [ Leaf ] ], Leaf
            ]
        }
    }
}

pub fn many_links(one: NodeScene, two: NodeScene, three: NodeScene) -> NodeScene {
    scene! {
        Leaf [ $one, $one, $two, $three, Leaf [ $three, $two, $one, Leaf [ $one ] ], $two, Many { [ $one ] }, Both(make(1)) [ $two, Leaf ], $three ]
    }
}

/// What is declared public can be used from here.
pub fn public(kinds: &mut Kinds, open: &Open) -> (u32, u32, usize, &'static str) {
    let _ = (&kinds.one, &kinds.reg_pub, &kinds.exp, &kinds.def_pub, open);
    let _ = (Kinds::new(make(1), text(2)), Open::new());
    (kinds.open(3), 0, 0, Kinds::OPEN)
}

pub fn public_too(broad: &mut Broad_Of2) -> u32 {
    let _ = (&broad.s0, &broad.s3, &broad.a3, &broad.a5, &broad.a7, &broad.b0, &broad.b2);
    let _ = Broad_Of2::new(make(1), make(2), text(3));
    broad.f1() + broad.f3() + Broad_Of2::C0 + Broad_Of2::C2
}
