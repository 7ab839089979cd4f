use node_tree::prelude::*;
use crate::{ make, mark, text };

class! { declare Plain; }

class! { pub declare Open; }

class! {
    /// A class that uses everything there is.
    #[allow(dead_code)]
    pub declare Kinds;

    /// Said without a value.
    signal none();
    pub signal one(a: u8);
    signal two(a: u8, b: String);

    #[cfg(any())]
    const GONE: u32 = 1;
    const LIMIT: u32 = 7;
    pub const OPEN: &str = "open";

    let reg_init: u32 = make(1);
    let reg: u32;
    #[allow(unused)]
    pub let reg_pub: String = text(2);
    export let exp_init: u32 = make(3);
    pub export let exp: String;
    export default let expd: u32;
    export default let expd_init: u32 = make(4);
    unique let uni_init: u32 = make(5);
    unique let uni: String;
    default let def: u32;
    pub default let def_pub: bool;

    hk _init(first: u32, second: String) {
        mark(10);
        let reg: u32 = first;
        let exp: String = second;
        let uni: String = text(6);
    }

    hk loaded(&mut self) { mark(11); }
    hk ready(&mut self) { mark(12); }
    hk process(&mut self, delta: f32) { mark(13); let _ = delta; }
    hk terminal(&mut self, reason: TerminationReason) { mark(14); let _ = reason; }
    hk process_mode(&self) -> ProcessMode { mark(15); ProcessMode::Inverse }

    fn plain(&self) -> u32 { make(16) }
    #[cfg(any())]
    fn gone(&self) {}
    pub fn open(&mut self, by: u32) -> u32 { make(by) }
}

class! {
    declare Mixed;

    fn before(&self) -> u32 { make(20) }
    hk ready(&mut self) { mark(21); }
    #[cfg(any())]
    hk loaded(&mut self) { mark(24); }
    default let counts: Vec<u32>;
    export let pair: (u32, String) = (make(22), text(23));
    const SIZE: usize = 3;
    export default let list: Vec<String>;
    signal changed(from: u32, to: u32, by: String);
    unique let handle: Option<Box<u32>> = None;
    let map: std::collections::HashMap<String, u32> = std::collections::HashMap::new();
}

class! {
    declare NoArgs;

    let value: u32;
    hk _init() { let value: u32 = make(30); }
    hk process(&mut self, _delta: f32) { mark(31); }
}

pub trait First { fn first(&self) -> u32; }
pub trait Second { fn second(&self) -> u32; }

class! { declare Extended extends First, Second; }
impl First for Extended { fn first(&self) -> u32 { make(40) } }
impl Second for Extended { fn second(&self) -> u32 { make(41) } }

class! {
    declare Listener;

    fn heard(&self, args: &u8) { mark(*args as u32); }
    fn heard_two(&self, args: &(u8, String)) { mark(args.0 as u32); }
    fn other(&self, _args: &u8) { mark(52); }
}

class! {
    declare Speaker;

    signal said(what: u8);
    signal also(what: u8);
    signal both(what: u8, how: String);

    fn always(&self, to: Tp<'static, Listener>) { connect! { said -> to.heard }; }
    fn once(&self, to: Tp<'static, Listener>) { connect! { also ~> to.other }; }
    fn pair(&self, to: Tp<'static, Listener>) { connect! { both -> to.heard_two }; }
}

class! {
    declare Names;

    signal map(owned_state: u8);
    export let _hidden: u32 = make(60);
    export let Upper: u32 = make(61);
    let owned_state: u32 = make(62);
    export default let r#type: u32;
    default let node: u32;
    unique let longer_name_with_2_digits: u32 = make(63);

    pub fn new_one(&self) -> u32 { make(64) }
    fn r#move(&mut self) -> u32 { make(65) }
}

// More of everything than any one example has.
class! {
    pub declare Broad_Of2;

    pub signal s0();
    signal s1(a: u8);
    signal s2(a: u8, b: u16);
    pub signal s3(a: u8, b: u16, c: u32);
    signal s4(a: u8, b: u16, c: u32, d: u64);
    signal s5(a: (u8, u16),);
    signal s6();
    signal s7(a: u8, b: u16, c: u32, d: u64, e: String, f: bool);

    let a0: u32 = make(200);
    default let a1: u32;
    unique let a2: u32 = make(202);
    pub let a3: u32;
    let a4: u32 = make(204);
    pub unique let a5: String;
    let a6: String = text(206);
    pub default let a7: bool;
    let a8: u32;
    export let a9: u32 = make(209);
    pub export default let b0: u32 = make(210);
    export default let b1: String;
    pub export let b2: u32;
    let b3: u32 = make(213);
    unique let b4: u32;
    let b5: u32 = make(215);

    pub const C0: u32 = 220;
    const C1: u32 = 221;
    pub const C2: u32 = 222;

    hk process_mode(&self) -> ProcessMode { mark(225); ProcessMode::Inverse }
    fn f0(&self) -> u32 { make(230) }
    hk terminal(&mut self, _reason: TerminationReason) { mark(224); }
    pub fn f1(&mut self) -> u32 { make(231) }
    hk _init(a3: u32, later: u32, word: String) {
        mark(240);
        let a8: u32 = later;
        let a5: String = word;
        let b2: u32 = make(241);
        let b4: u32 = a3;
    }
    fn f2() -> u32 { make(232) + Self::C1 }
    hk process(&mut self, _delta: f32) { mark(223); }
    hk loaded(&mut self) { mark(226); }
    pub fn f3(&self) -> u32 { make(233) }
    hk ready(&mut self) { mark(222); }
}
