// Written by gen_programs.py.
use super::*;

#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R0)]
pub struct L0 { b: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R0 { b: W }
impl Make for L0 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { L0 { b: { let x = x[0]; 100 + x as i64 } } } }
impl Make for R0 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { R0 { b: { let x = x[0]; W(100 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R1)]
pub struct L1 ( i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R1 ( W );
impl Make for L1 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { L1 ( { let x = x[0]; 100 + x as i64 } ) } }
impl Make for R1 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { R1 ( { let x = x[0]; W(100 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R2)]
pub struct L2 { b: ::std::vec::Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R2 { b: Vec<W> }
impl Make for L2 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { L2 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R2 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { R2 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R3)]
pub struct L3 ( Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R3 ( Vec<W> );
impl Make for L3 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { L3 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R3 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { R3 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R4)]
#[auto_from(Q4)]
pub struct L4 { b: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R4 { b: Option<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q4 { b: Option<W> }
impl Make for L4 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { L4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } } } } }
impl Make for R4 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { R4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } } } } }
impl Make for Q4 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { Q4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R5)]
pub struct L5 ( std::option::Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R5 ( Option<W> );
impl Make for L5 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { L5 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } } ) } }
impl Make for R5 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { R5 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R6)]
pub struct L6 { b: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R6 { b: Box<W> }
impl Make for L6 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { L6 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) } } } }
impl Make for R6 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { R6 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R7)]
pub struct L7 ( Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R7 ( Box<W> );
impl Make for L7 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { L7 ( { let x = x[0]; Box::new(100 + 7 + x as i64) } ) } }
impl Make for R7 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { R7 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R8)]
pub struct L8 { b: self::Sub }
#[derive(Debug, Clone, PartialEq)]
pub struct R8 { b: SubW }
impl Make for L8 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { L8 { b: { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } } } } }
impl Make for R8 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { R8 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R9)]
#[auto_from(Q9)]
pub struct L9 ( Sub );
#[derive(Debug, Clone, PartialEq)]
pub struct R9 ( SubW );
#[derive(Debug, Clone, PartialEq)]
pub struct Q9 ( SubW );
impl Make for L9 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { L9 ( { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } } ) } }
impl Make for R9 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { R9 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } } ) } }
impl Make for Q9 { const MEMBERS: usize = 1; fn make(_v: usize, x: &[usize]) -> Self { Q9 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R10)]
pub struct L10 { b: i64, a: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R10 { a: W, b: W }
impl Make for L10 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L10 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; 200 + x as i64 } } } }
impl Make for R10 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R10 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; W(200 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R11)]
pub struct L11 ( i64, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R11 ( W, W );
impl Make for L11 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L11 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; 200 + x as i64 } ) } }
impl Make for R11 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R11 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; W(200 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R12)]
pub struct L12 { b: i64, a: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R12 { a: Vec<W>, b: W }
impl Make for L12 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L12 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R12 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R12 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R13)]
pub struct L13 ( i64, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R13 ( W, Vec<W> );
impl Make for L13 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L13 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R13 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R13 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R14)]
#[auto_from(Q14)]
pub struct L14 { b: i64, a: std::option::Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R14 { a: Option<W>, b: W }
#[derive(Debug, Clone, PartialEq)]
pub struct Q14 { b: W, a: Option<W> }
impl Make for L14 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L14 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } } } }
impl Make for R14 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R14 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } } } }
impl Make for Q14 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { Q14 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R15)]
pub struct L15 ( i64, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R15 ( W, Option<W> );
impl Make for L15 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L15 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } ) } }
impl Make for R15 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R15 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R16)]
pub struct L16 { b: i64, a: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R16 { a: Box<W>, b: W }
impl Make for L16 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L16 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) } } } }
impl Make for R16 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R16 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R17)]
pub struct L17 ( i64, std::boxed::Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R17 ( W, Box<W> );
impl Make for L17 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L17 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Box::new(200 + 7 + x as i64) } ) } }
impl Make for R17 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R17 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R18)]
pub struct L18 { b: i64, a: Sub }
#[derive(Debug, Clone, PartialEq)]
pub struct R18 { a: SubW, b: W }
impl Make for L18 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L18 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } } } }
impl Make for R18 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R18 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R19)]
#[auto_from(Q19)]
pub struct L19 ( i64, Sub );
#[derive(Debug, Clone, PartialEq)]
pub struct R19 ( W, SubW );
#[derive(Debug, Clone, PartialEq)]
pub struct Q19 ( W, SubW );
impl Make for L19 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L19 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } ) } }
impl Make for R19 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R19 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ) } }
impl Make for Q19 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { Q19 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R20)]
pub struct L20 { b: ::std::vec::Vec<i64>, a: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R20 { a: W, b: Vec<W> }
impl Make for L20 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L20 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; 200 + x as i64 } } } }
impl Make for R20 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R20 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; W(200 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R21)]
pub struct L21 ( Vec<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R21 ( Vec<W>, W );
impl Make for L21 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L21 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; 200 + x as i64 } ) } }
impl Make for R21 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R21 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; W(200 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R22)]
pub struct L22 { b: Vec<i64>, a: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R22 { a: Vec<W>, b: Vec<W> }
impl Make for L22 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L22 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R22 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R22 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R23)]
pub struct L23 ( ::std::vec::Vec<i64>, ::std::vec::Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R23 ( Vec<W>, Vec<W> );
impl Make for L23 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L23 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R23 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R23 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R24)]
#[auto_from(Q24)]
pub struct L24 { b: Vec<i64>, a: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R24 { a: Option<W>, b: Vec<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q24 { b: Vec<W>, a: Option<W> }
impl Make for L24 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L24 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } } } }
impl Make for R24 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R24 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } } } }
impl Make for Q24 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { Q24 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R25)]
pub struct L25 ( Vec<i64>, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R25 ( Vec<W>, Option<W> );
impl Make for L25 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L25 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } ) } }
impl Make for R25 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R25 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R26)]
pub struct L26 { b: ::std::vec::Vec<i64>, a: std::boxed::Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R26 { a: Box<W>, b: Vec<W> }
impl Make for L26 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L26 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) } } } }
impl Make for R26 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R26 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R27)]
pub struct L27 ( Vec<i64>, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R27 ( Vec<W>, Box<W> );
impl Make for L27 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L27 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; Box::new(200 + 7 + x as i64) } ) } }
impl Make for R27 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R27 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R28)]
pub struct L28 { b: Vec<i64>, a: Sub }
#[derive(Debug, Clone, PartialEq)]
pub struct R28 { a: SubW, b: Vec<W> }
impl Make for L28 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L28 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } } } }
impl Make for R28 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R28 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R29)]
#[auto_from(Q29)]
pub struct L29 ( ::std::vec::Vec<i64>, self::Sub );
#[derive(Debug, Clone, PartialEq)]
pub struct R29 ( Vec<W>, SubW );
#[derive(Debug, Clone, PartialEq)]
pub struct Q29 ( Vec<W>, SubW );
impl Make for L29 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L29 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } ) } }
impl Make for R29 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R29 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ) } }
impl Make for Q29 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { Q29 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R30)]
pub struct L30 { b: Option<i64>, a: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R30 { a: W, b: Option<W> }
impl Make for L30 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L30 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; 200 + x as i64 } } } }
impl Make for R30 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R30 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; W(200 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R31)]
pub struct L31 ( Option<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R31 ( Option<W>, W );
impl Make for L31 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L31 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; 200 + x as i64 } ) } }
impl Make for R31 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R31 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; W(200 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R32)]
pub struct L32 { b: std::option::Option<i64>, a: ::std::vec::Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R32 { a: Vec<W>, b: Option<W> }
impl Make for L32 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L32 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R32 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R32 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R33)]
pub struct L33 ( Option<i64>, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R33 ( Option<W>, Vec<W> );
impl Make for L33 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L33 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R33 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R33 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R34)]
#[auto_from(Q34)]
pub struct L34 { b: Option<i64>, a: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R34 { a: Option<W>, b: Option<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q34 { b: Option<W>, a: Option<W> }
impl Make for L34 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L34 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } } } }
impl Make for R34 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R34 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } } } }
impl Make for Q34 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { Q34 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R35)]
pub struct L35 ( std::option::Option<i64>, std::option::Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R35 ( Option<W>, Option<W> );
impl Make for L35 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L35 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } ) } }
impl Make for R35 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R35 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R36)]
pub struct L36 { b: Option<i64>, a: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R36 { a: Box<W>, b: Option<W> }
impl Make for L36 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L36 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) } } } }
impl Make for R36 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R36 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R37)]
pub struct L37 ( Option<i64>, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R37 ( Option<W>, Box<W> );
impl Make for L37 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L37 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; Box::new(200 + 7 + x as i64) } ) } }
impl Make for R37 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R37 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R38)]
pub struct L38 { b: std::option::Option<i64>, a: self::Sub }
#[derive(Debug, Clone, PartialEq)]
pub struct R38 { a: SubW, b: Option<W> }
impl Make for L38 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L38 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } } } }
impl Make for R38 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R38 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R39)]
#[auto_from(Q39)]
pub struct L39 ( Option<i64>, Sub );
#[derive(Debug, Clone, PartialEq)]
pub struct R39 ( Option<W>, SubW );
#[derive(Debug, Clone, PartialEq)]
pub struct Q39 ( Option<W>, SubW );
impl Make for L39 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L39 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } ) } }
impl Make for R39 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R39 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ) } }
impl Make for Q39 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { Q39 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R40)]
pub struct L40 { b: Box<i64>, a: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R40 { a: W, b: Box<W> }
impl Make for L40 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L40 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; 200 + x as i64 } } } }
impl Make for R40 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R40 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; W(200 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R41)]
pub struct L41 ( std::boxed::Box<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R41 ( Box<W>, W );
impl Make for L41 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L41 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; 200 + x as i64 } ) } }
impl Make for R41 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R41 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; W(200 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R42)]
pub struct L42 { b: Box<i64>, a: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R42 { a: Vec<W>, b: Box<W> }
impl Make for L42 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L42 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R42 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R42 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R43)]
pub struct L43 ( Box<i64>, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R43 ( Box<W>, Vec<W> );
impl Make for L43 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L43 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R43 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R43 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R44)]
#[auto_from(Q44)]
pub struct L44 { b: std::boxed::Box<i64>, a: std::option::Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R44 { a: Option<W>, b: Box<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q44 { b: Box<W>, a: Option<W> }
impl Make for L44 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L44 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } } } }
impl Make for R44 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R44 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } } } }
impl Make for Q44 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { Q44 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R45)]
pub struct L45 ( Box<i64>, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R45 ( Box<W>, Option<W> );
impl Make for L45 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L45 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } ) } }
impl Make for R45 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R45 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R46)]
pub struct L46 { b: Box<i64>, a: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R46 { a: Box<W>, b: Box<W> }
impl Make for L46 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L46 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) } } } }
impl Make for R46 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R46 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R47)]
pub struct L47 ( std::boxed::Box<i64>, std::boxed::Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R47 ( Box<W>, Box<W> );
impl Make for L47 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L47 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; Box::new(200 + 7 + x as i64) } ) } }
impl Make for R47 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R47 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R48)]
pub struct L48 { b: Box<i64>, a: Sub }
#[derive(Debug, Clone, PartialEq)]
pub struct R48 { a: SubW, b: Box<W> }
impl Make for L48 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L48 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } } } }
impl Make for R48 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R48 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R49)]
#[auto_from(Q49)]
pub struct L49 ( Box<i64>, Sub );
#[derive(Debug, Clone, PartialEq)]
pub struct R49 ( Box<W>, SubW );
#[derive(Debug, Clone, PartialEq)]
pub struct Q49 ( Box<W>, SubW );
impl Make for L49 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L49 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } ) } }
impl Make for R49 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R49 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ) } }
impl Make for Q49 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { Q49 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R50)]
pub struct L50 { b: self::Sub, a: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R50 { a: W, b: SubW }
impl Make for L50 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L50 { b: { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, a: { let x = x[1]; 200 + x as i64 } } } }
impl Make for R50 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R50 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, a: { let x = x[1]; W(200 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R51)]
pub struct L51 ( Sub, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R51 ( SubW, W );
impl Make for L51 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L51 ( { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, { let x = x[1]; 200 + x as i64 } ) } }
impl Make for R51 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R51 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, { let x = x[1]; W(200 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R52)]
pub struct L52 { b: Sub, a: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R52 { a: Vec<W>, b: SubW }
impl Make for L52 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L52 { b: { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R52 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R52 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R53)]
pub struct L53 ( self::Sub, ::std::vec::Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R53 ( SubW, Vec<W> );
impl Make for L53 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L53 ( { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R53 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R53 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R54)]
#[auto_from(Q54)]
pub struct L54 { b: Sub, a: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R54 { a: Option<W>, b: SubW }
#[derive(Debug, Clone, PartialEq)]
pub struct Q54 { b: SubW, a: Option<W> }
impl Make for L54 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L54 { b: { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } } } }
impl Make for R54 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R54 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } } } }
impl Make for Q54 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { Q54 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R55)]
pub struct L55 ( Sub, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R55 ( SubW, Option<W> );
impl Make for L55 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L55 ( { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } ) } }
impl Make for R55 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R55 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R56)]
pub struct L56 { b: self::Sub, a: std::boxed::Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R56 { a: Box<W>, b: SubW }
impl Make for L56 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L56 { b: { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) } } } }
impl Make for R56 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R56 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R57)]
pub struct L57 ( Sub, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R57 ( SubW, Box<W> );
impl Make for L57 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L57 ( { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, { let x = x[1]; Box::new(200 + 7 + x as i64) } ) } }
impl Make for R57 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R57 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R58)]
pub struct L58 { b: Sub, a: Sub }
#[derive(Debug, Clone, PartialEq)]
pub struct R58 { a: SubW, b: SubW }
impl Make for L58 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L58 { b: { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, a: { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } } } }
impl Make for R58 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R58 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, a: { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R59)]
#[auto_from(Q59)]
pub struct L59 ( self::Sub, self::Sub );
#[derive(Debug, Clone, PartialEq)]
pub struct R59 ( SubW, SubW );
#[derive(Debug, Clone, PartialEq)]
pub struct Q59 ( SubW, SubW );
impl Make for L59 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { L59 ( { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } ) } }
impl Make for R59 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { R59 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ) } }
impl Make for Q59 { const MEMBERS: usize = 2; fn make(_v: usize, x: &[usize]) -> Self { Q59 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R60)]
pub struct L60 { b: i64, a: i64, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R60 { d: W, a: W, b: W }
impl Make for L60 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L60 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R60 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R60 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R61)]
pub struct L61 ( i64, i64, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R61 ( W, W, W );
impl Make for L61 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L61 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R61 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R61 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R62)]
pub struct L62 { b: i64, a: i64, d: ::std::vec::Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R62 { d: Vec<W>, a: W, b: W }
impl Make for L62 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L62 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R62 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R62 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R63)]
pub struct L63 ( i64, i64, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R63 ( W, W, Vec<W> );
impl Make for L63 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L63 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R63 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R63 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R64)]
#[auto_from(Q64)]
pub struct L64 { b: i64, a: i64, d: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R64 { d: Option<W>, a: W, b: W }
#[derive(Debug, Clone, PartialEq)]
pub struct Q64 { b: W, a: W, d: Option<W> }
impl Make for L64 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L64 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R64 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R64 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
impl Make for Q64 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q64 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R65)]
pub struct L65 ( i64, i64, std::option::Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R65 ( W, W, Option<W> );
impl Make for L65 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L65 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R65 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R65 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R66)]
pub struct L66 { b: i64, a: i64, d: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R66 { d: Box<W>, a: W, b: W }
impl Make for L66 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L66 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R66 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R66 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R67)]
pub struct L67 ( i64, i64, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R67 ( W, W, Box<W> );
impl Make for L67 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L67 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R67 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R67 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R68)]
pub struct L68 { b: i64, a: ::std::vec::Vec<i64>, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R68 { d: W, a: Vec<W>, b: W }
impl Make for L68 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L68 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R68 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R68 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R69)]
#[auto_from(Q69)]
pub struct L69 ( i64, Vec<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R69 ( W, Vec<W>, W );
#[derive(Debug, Clone, PartialEq)]
pub struct Q69 ( W, Vec<W>, W );
impl Make for L69 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L69 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R69 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R69 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; W(300 + x as i64) } ) } }
impl Make for Q69 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q69 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R70)]
pub struct L70 { b: i64, a: Vec<i64>, d: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R70 { d: Vec<W>, a: Vec<W>, b: W }
impl Make for L70 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L70 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R70 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R70 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R71)]
pub struct L71 ( i64, ::std::vec::Vec<i64>, ::std::vec::Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R71 ( W, Vec<W>, Vec<W> );
impl Make for L71 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L71 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R71 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R71 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R72)]
pub struct L72 { b: i64, a: Vec<i64>, d: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R72 { d: Option<W>, a: Vec<W>, b: W }
impl Make for L72 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L72 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R72 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R72 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R73)]
pub struct L73 ( i64, Vec<i64>, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R73 ( W, Vec<W>, Option<W> );
impl Make for L73 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L73 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R73 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R73 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R74)]
#[auto_from(Q74)]
pub struct L74 { b: i64, a: ::std::vec::Vec<i64>, d: std::boxed::Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R74 { d: Box<W>, a: Vec<W>, b: W }
#[derive(Debug, Clone, PartialEq)]
pub struct Q74 { b: W, a: Vec<W>, d: Box<W> }
impl Make for L74 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L74 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R74 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R74 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
impl Make for Q74 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q74 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R75)]
pub struct L75 ( i64, Vec<i64>, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R75 ( W, Vec<W>, Box<W> );
impl Make for L75 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L75 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R75 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R75 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R76)]
pub struct L76 { b: i64, a: Option<i64>, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R76 { d: W, a: Option<W>, b: W }
impl Make for L76 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L76 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R76 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R76 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R77)]
pub struct L77 ( i64, std::option::Option<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R77 ( W, Option<W>, W );
impl Make for L77 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L77 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R77 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R77 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R78)]
pub struct L78 { b: i64, a: Option<i64>, d: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R78 { d: Vec<W>, a: Option<W>, b: W }
impl Make for L78 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L78 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R78 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R78 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R79)]
#[auto_from(Q79)]
pub struct L79 ( i64, Option<i64>, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R79 ( W, Option<W>, Vec<W> );
#[derive(Debug, Clone, PartialEq)]
pub struct Q79 ( W, Option<W>, Vec<W> );
impl Make for L79 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L79 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R79 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R79 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
impl Make for Q79 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q79 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R80)]
pub struct L80 { b: i64, a: std::option::Option<i64>, d: std::option::Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R80 { d: Option<W>, a: Option<W>, b: W }
impl Make for L80 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L80 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R80 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R80 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R81)]
pub struct L81 ( i64, Option<i64>, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R81 ( W, Option<W>, Option<W> );
impl Make for L81 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L81 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R81 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R81 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R82)]
pub struct L82 { b: i64, a: Option<i64>, d: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R82 { d: Box<W>, a: Option<W>, b: W }
impl Make for L82 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L82 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R82 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R82 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R83)]
pub struct L83 ( i64, std::option::Option<i64>, std::boxed::Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R83 ( W, Option<W>, Box<W> );
impl Make for L83 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L83 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R83 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R83 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R84)]
#[auto_from(Q84)]
pub struct L84 { b: i64, a: Box<i64>, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R84 { d: W, a: Box<W>, b: W }
#[derive(Debug, Clone, PartialEq)]
pub struct Q84 { b: W, a: Box<W>, d: W }
impl Make for L84 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L84 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R84 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R84 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; W(300 + x as i64) } } } }
impl Make for Q84 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q84 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R85)]
pub struct L85 ( i64, Box<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R85 ( W, Box<W>, W );
impl Make for L85 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L85 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R85 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R85 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R86)]
pub struct L86 { b: i64, a: std::boxed::Box<i64>, d: ::std::vec::Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R86 { d: Vec<W>, a: Box<W>, b: W }
impl Make for L86 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L86 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R86 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R86 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R87)]
pub struct L87 ( i64, Box<i64>, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R87 ( W, Box<W>, Vec<W> );
impl Make for L87 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L87 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R87 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R87 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R88)]
pub struct L88 { b: i64, a: Box<i64>, d: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R88 { d: Option<W>, a: Box<W>, b: W }
impl Make for L88 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L88 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R88 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R88 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R89)]
#[auto_from(Q89)]
pub struct L89 ( i64, std::boxed::Box<i64>, std::option::Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R89 ( W, Box<W>, Option<W> );
#[derive(Debug, Clone, PartialEq)]
pub struct Q89 ( W, Box<W>, Option<W> );
impl Make for L89 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L89 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R89 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R89 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
impl Make for Q89 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q89 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R90)]
pub struct L90 { b: i64, a: Box<i64>, d: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R90 { d: Box<W>, a: Box<W>, b: W }
impl Make for L90 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L90 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R90 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R90 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R91)]
pub struct L91 ( i64, Box<i64>, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R91 ( W, Box<W>, Box<W> );
impl Make for L91 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L91 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R91 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R91 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R92)]
pub struct L92 { b: ::std::vec::Vec<i64>, a: i64, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R92 { d: W, a: W, b: Vec<W> }
impl Make for L92 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L92 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R92 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R92 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R93)]
pub struct L93 ( Vec<i64>, i64, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R93 ( Vec<W>, W, W );
impl Make for L93 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L93 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R93 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R93 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R94)]
#[auto_from(Q94)]
pub struct L94 { b: Vec<i64>, a: i64, d: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R94 { d: Vec<W>, a: W, b: Vec<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q94 { b: Vec<W>, a: W, d: Vec<W> }
impl Make for L94 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L94 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R94 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R94 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
impl Make for Q94 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q94 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R95)]
pub struct L95 ( ::std::vec::Vec<i64>, i64, ::std::vec::Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R95 ( Vec<W>, W, Vec<W> );
impl Make for L95 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L95 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R95 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R95 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R96)]
pub struct L96 { b: Vec<i64>, a: i64, d: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R96 { d: Option<W>, a: W, b: Vec<W> }
impl Make for L96 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L96 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R96 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R96 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R97)]
pub struct L97 ( Vec<i64>, i64, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R97 ( Vec<W>, W, Option<W> );
impl Make for L97 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L97 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R97 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R97 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R98)]
pub struct L98 { b: ::std::vec::Vec<i64>, a: i64, d: std::boxed::Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R98 { d: Box<W>, a: W, b: Vec<W> }
impl Make for L98 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L98 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R98 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R98 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R99)]
#[auto_from(Q99)]
pub struct L99 ( Vec<i64>, i64, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R99 ( Vec<W>, W, Box<W> );
#[derive(Debug, Clone, PartialEq)]
pub struct Q99 ( Vec<W>, W, Box<W> );
impl Make for L99 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L99 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R99 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R99 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
impl Make for Q99 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q99 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R100)]
pub struct L100 { b: Vec<i64>, a: Vec<i64>, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R100 { d: W, a: Vec<W>, b: Vec<W> }
impl Make for L100 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L100 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R100 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R100 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R101)]
pub struct L101 ( ::std::vec::Vec<i64>, ::std::vec::Vec<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R101 ( Vec<W>, Vec<W>, W );
impl Make for L101 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L101 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R101 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R101 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R102)]
pub struct L102 { b: Vec<i64>, a: Vec<i64>, d: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R102 { d: Vec<W>, a: Vec<W>, b: Vec<W> }
impl Make for L102 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L102 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R102 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R102 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R103)]
pub struct L103 ( Vec<i64>, Vec<i64>, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R103 ( Vec<W>, Vec<W>, Vec<W> );
impl Make for L103 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L103 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R103 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R103 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R104)]
#[auto_from(Q104)]
pub struct L104 { b: ::std::vec::Vec<i64>, a: ::std::vec::Vec<i64>, d: std::option::Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R104 { d: Option<W>, a: Vec<W>, b: Vec<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q104 { b: Vec<W>, a: Vec<W>, d: Option<W> }
impl Make for L104 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L104 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R104 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R104 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
impl Make for Q104 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q104 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R105)]
pub struct L105 ( Vec<i64>, Vec<i64>, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R105 ( Vec<W>, Vec<W>, Option<W> );
impl Make for L105 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L105 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R105 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R105 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R106)]
pub struct L106 { b: Vec<i64>, a: Vec<i64>, d: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R106 { d: Box<W>, a: Vec<W>, b: Vec<W> }
impl Make for L106 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L106 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R106 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R106 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R107)]
pub struct L107 ( ::std::vec::Vec<i64>, ::std::vec::Vec<i64>, std::boxed::Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R107 ( Vec<W>, Vec<W>, Box<W> );
impl Make for L107 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L107 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R107 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R107 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R108)]
pub struct L108 { b: Vec<i64>, a: Option<i64>, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R108 { d: W, a: Option<W>, b: Vec<W> }
impl Make for L108 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L108 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R108 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R108 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R109)]
#[auto_from(Q109)]
pub struct L109 ( Vec<i64>, Option<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R109 ( Vec<W>, Option<W>, W );
#[derive(Debug, Clone, PartialEq)]
pub struct Q109 ( Vec<W>, Option<W>, W );
impl Make for L109 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L109 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R109 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R109 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; W(300 + x as i64) } ) } }
impl Make for Q109 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q109 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R110)]
pub struct L110 { b: ::std::vec::Vec<i64>, a: std::option::Option<i64>, d: ::std::vec::Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R110 { d: Vec<W>, a: Option<W>, b: Vec<W> }
impl Make for L110 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L110 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R110 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R110 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R111)]
pub struct L111 ( Vec<i64>, Option<i64>, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R111 ( Vec<W>, Option<W>, Vec<W> );
impl Make for L111 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L111 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R111 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R111 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R112)]
pub struct L112 { b: Vec<i64>, a: Option<i64>, d: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R112 { d: Option<W>, a: Option<W>, b: Vec<W> }
impl Make for L112 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L112 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R112 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R112 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R113)]
pub struct L113 ( ::std::vec::Vec<i64>, std::option::Option<i64>, std::option::Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R113 ( Vec<W>, Option<W>, Option<W> );
impl Make for L113 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L113 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R113 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R113 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R114)]
#[auto_from(Q114)]
pub struct L114 { b: Vec<i64>, a: Option<i64>, d: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R114 { d: Box<W>, a: Option<W>, b: Vec<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q114 { b: Vec<W>, a: Option<W>, d: Box<W> }
impl Make for L114 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L114 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R114 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R114 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
impl Make for Q114 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q114 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R115)]
pub struct L115 ( Vec<i64>, Option<i64>, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R115 ( Vec<W>, Option<W>, Box<W> );
impl Make for L115 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L115 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R115 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R115 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R116)]
pub struct L116 { b: ::std::vec::Vec<i64>, a: std::boxed::Box<i64>, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R116 { d: W, a: Box<W>, b: Vec<W> }
impl Make for L116 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L116 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R116 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R116 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R117)]
pub struct L117 ( Vec<i64>, Box<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R117 ( Vec<W>, Box<W>, W );
impl Make for L117 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L117 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R117 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R117 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R118)]
pub struct L118 { b: Vec<i64>, a: Box<i64>, d: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R118 { d: Vec<W>, a: Box<W>, b: Vec<W> }
impl Make for L118 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L118 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R118 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R118 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R119)]
#[auto_from(Q119)]
pub struct L119 ( ::std::vec::Vec<i64>, std::boxed::Box<i64>, ::std::vec::Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R119 ( Vec<W>, Box<W>, Vec<W> );
#[derive(Debug, Clone, PartialEq)]
pub struct Q119 ( Vec<W>, Box<W>, Vec<W> );
impl Make for L119 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L119 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R119 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R119 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
impl Make for Q119 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q119 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R120)]
pub struct L120 { b: Vec<i64>, a: Box<i64>, d: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R120 { d: Option<W>, a: Box<W>, b: Vec<W> }
impl Make for L120 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L120 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R120 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R120 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R121)]
pub struct L121 ( Vec<i64>, Box<i64>, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R121 ( Vec<W>, Box<W>, Option<W> );
impl Make for L121 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L121 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R121 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R121 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R122)]
pub struct L122 { b: ::std::vec::Vec<i64>, a: std::boxed::Box<i64>, d: std::boxed::Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R122 { d: Box<W>, a: Box<W>, b: Vec<W> }
impl Make for L122 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L122 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R122 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R122 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R123)]
pub struct L123 ( Vec<i64>, Box<i64>, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R123 ( Vec<W>, Box<W>, Box<W> );
impl Make for L123 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L123 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R123 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R123 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R124)]
#[auto_from(Q124)]
pub struct L124 { b: Option<i64>, a: i64, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R124 { d: W, a: W, b: Option<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q124 { b: Option<W>, a: W, d: W }
impl Make for L124 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L124 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R124 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R124 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; W(300 + x as i64) } } } }
impl Make for Q124 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q124 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R125)]
pub struct L125 ( std::option::Option<i64>, i64, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R125 ( Option<W>, W, W );
impl Make for L125 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L125 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R125 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R125 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R126)]
pub struct L126 { b: Option<i64>, a: i64, d: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R126 { d: Vec<W>, a: W, b: Option<W> }
impl Make for L126 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L126 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R126 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R126 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R127)]
pub struct L127 ( Option<i64>, i64, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R127 ( Option<W>, W, Vec<W> );
impl Make for L127 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L127 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R127 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R127 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R128)]
pub struct L128 { b: std::option::Option<i64>, a: i64, d: std::option::Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R128 { d: Option<W>, a: W, b: Option<W> }
impl Make for L128 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L128 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R128 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R128 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R129)]
#[auto_from(Q129)]
pub struct L129 ( Option<i64>, i64, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R129 ( Option<W>, W, Option<W> );
#[derive(Debug, Clone, PartialEq)]
pub struct Q129 ( Option<W>, W, Option<W> );
impl Make for L129 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L129 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R129 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R129 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
impl Make for Q129 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q129 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R130)]
pub struct L130 { b: Option<i64>, a: i64, d: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R130 { d: Box<W>, a: W, b: Option<W> }
impl Make for L130 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L130 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R130 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R130 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R131)]
pub struct L131 ( std::option::Option<i64>, i64, std::boxed::Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R131 ( Option<W>, W, Box<W> );
impl Make for L131 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L131 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R131 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R131 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R132)]
pub struct L132 { b: Option<i64>, a: Vec<i64>, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R132 { d: W, a: Vec<W>, b: Option<W> }
impl Make for L132 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L132 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R132 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R132 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R133)]
pub struct L133 ( Option<i64>, Vec<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R133 ( Option<W>, Vec<W>, W );
impl Make for L133 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L133 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R133 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R133 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R134)]
#[auto_from(Q134)]
pub struct L134 { b: std::option::Option<i64>, a: ::std::vec::Vec<i64>, d: ::std::vec::Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R134 { d: Vec<W>, a: Vec<W>, b: Option<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q134 { b: Option<W>, a: Vec<W>, d: Vec<W> }
impl Make for L134 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L134 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R134 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R134 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
impl Make for Q134 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q134 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R135)]
pub struct L135 ( Option<i64>, Vec<i64>, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R135 ( Option<W>, Vec<W>, Vec<W> );
impl Make for L135 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L135 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R135 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R135 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R136)]
pub struct L136 { b: Option<i64>, a: Vec<i64>, d: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R136 { d: Option<W>, a: Vec<W>, b: Option<W> }
impl Make for L136 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L136 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R136 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R136 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R137)]
pub struct L137 ( std::option::Option<i64>, ::std::vec::Vec<i64>, std::option::Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R137 ( Option<W>, Vec<W>, Option<W> );
impl Make for L137 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L137 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R137 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R137 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R138)]
pub struct L138 { b: Option<i64>, a: Vec<i64>, d: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R138 { d: Box<W>, a: Vec<W>, b: Option<W> }
impl Make for L138 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L138 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R138 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R138 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R139)]
#[auto_from(Q139)]
pub struct L139 ( Option<i64>, Vec<i64>, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R139 ( Option<W>, Vec<W>, Box<W> );
#[derive(Debug, Clone, PartialEq)]
pub struct Q139 ( Option<W>, Vec<W>, Box<W> );
impl Make for L139 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L139 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R139 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R139 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
impl Make for Q139 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q139 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R140)]
pub struct L140 { b: std::option::Option<i64>, a: std::option::Option<i64>, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R140 { d: W, a: Option<W>, b: Option<W> }
impl Make for L140 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L140 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R140 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R140 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R141)]
pub struct L141 ( Option<i64>, Option<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R141 ( Option<W>, Option<W>, W );
impl Make for L141 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L141 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R141 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R141 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R142)]
pub struct L142 { b: Option<i64>, a: Option<i64>, d: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R142 { d: Vec<W>, a: Option<W>, b: Option<W> }
impl Make for L142 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L142 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R142 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R142 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R143)]
pub struct L143 ( std::option::Option<i64>, std::option::Option<i64>, ::std::vec::Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R143 ( Option<W>, Option<W>, Vec<W> );
impl Make for L143 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L143 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R143 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R143 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R144)]
#[auto_from(Q144)]
pub struct L144 { b: Option<i64>, a: Option<i64>, d: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R144 { d: Option<W>, a: Option<W>, b: Option<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q144 { b: Option<W>, a: Option<W>, d: Option<W> }
impl Make for L144 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L144 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R144 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R144 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
impl Make for Q144 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q144 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R145)]
pub struct L145 ( Option<i64>, Option<i64>, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R145 ( Option<W>, Option<W>, Option<W> );
impl Make for L145 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L145 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R145 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R145 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R146)]
pub struct L146 { b: std::option::Option<i64>, a: std::option::Option<i64>, d: std::boxed::Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R146 { d: Box<W>, a: Option<W>, b: Option<W> }
impl Make for L146 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L146 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R146 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R146 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R147)]
pub struct L147 ( Option<i64>, Option<i64>, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R147 ( Option<W>, Option<W>, Box<W> );
impl Make for L147 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L147 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R147 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R147 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R148)]
pub struct L148 { b: Option<i64>, a: Box<i64>, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R148 { d: W, a: Box<W>, b: Option<W> }
impl Make for L148 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L148 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R148 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R148 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R149)]
#[auto_from(Q149)]
pub struct L149 ( std::option::Option<i64>, std::boxed::Box<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R149 ( Option<W>, Box<W>, W );
#[derive(Debug, Clone, PartialEq)]
pub struct Q149 ( Option<W>, Box<W>, W );
impl Make for L149 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L149 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R149 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R149 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; W(300 + x as i64) } ) } }
impl Make for Q149 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q149 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R150)]
pub struct L150 { b: Option<i64>, a: Box<i64>, d: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R150 { d: Vec<W>, a: Box<W>, b: Option<W> }
impl Make for L150 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L150 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R150 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R150 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R151)]
pub struct L151 ( Option<i64>, Box<i64>, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R151 ( Option<W>, Box<W>, Vec<W> );
impl Make for L151 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L151 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R151 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R151 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R152)]
pub struct L152 { b: std::option::Option<i64>, a: std::boxed::Box<i64>, d: std::option::Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R152 { d: Option<W>, a: Box<W>, b: Option<W> }
impl Make for L152 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L152 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R152 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R152 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R153)]
pub struct L153 ( Option<i64>, Box<i64>, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R153 ( Option<W>, Box<W>, Option<W> );
impl Make for L153 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L153 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R153 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R153 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R154)]
#[auto_from(Q154)]
pub struct L154 { b: Option<i64>, a: Box<i64>, d: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R154 { d: Box<W>, a: Box<W>, b: Option<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q154 { b: Option<W>, a: Box<W>, d: Box<W> }
impl Make for L154 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L154 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R154 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R154 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
impl Make for Q154 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q154 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R155)]
pub struct L155 ( std::option::Option<i64>, std::boxed::Box<i64>, std::boxed::Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R155 ( Option<W>, Box<W>, Box<W> );
impl Make for L155 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L155 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R155 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R155 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R156)]
pub struct L156 { b: Box<i64>, a: i64, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R156 { d: W, a: W, b: Box<W> }
impl Make for L156 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L156 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R156 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R156 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R157)]
pub struct L157 ( Box<i64>, i64, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R157 ( Box<W>, W, W );
impl Make for L157 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L157 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R157 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R157 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R158)]
pub struct L158 { b: std::boxed::Box<i64>, a: i64, d: ::std::vec::Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R158 { d: Vec<W>, a: W, b: Box<W> }
impl Make for L158 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L158 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R158 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R158 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R159)]
#[auto_from(Q159)]
pub struct L159 ( Box<i64>, i64, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R159 ( Box<W>, W, Vec<W> );
#[derive(Debug, Clone, PartialEq)]
pub struct Q159 ( Box<W>, W, Vec<W> );
impl Make for L159 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L159 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R159 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R159 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
impl Make for Q159 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q159 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R160)]
pub struct L160 { b: Box<i64>, a: i64, d: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R160 { d: Option<W>, a: W, b: Box<W> }
impl Make for L160 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L160 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R160 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R160 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R161)]
pub struct L161 ( std::boxed::Box<i64>, i64, std::option::Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R161 ( Box<W>, W, Option<W> );
impl Make for L161 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L161 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R161 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R161 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R162)]
pub struct L162 { b: Box<i64>, a: i64, d: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R162 { d: Box<W>, a: W, b: Box<W> }
impl Make for L162 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L162 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R162 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R162 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R163)]
pub struct L163 ( Box<i64>, i64, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R163 ( Box<W>, W, Box<W> );
impl Make for L163 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L163 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R163 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R163 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R164)]
#[auto_from(Q164)]
pub struct L164 { b: std::boxed::Box<i64>, a: ::std::vec::Vec<i64>, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R164 { d: W, a: Vec<W>, b: Box<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q164 { b: Box<W>, a: Vec<W>, d: W }
impl Make for L164 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L164 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R164 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R164 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; W(300 + x as i64) } } } }
impl Make for Q164 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q164 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R165)]
pub struct L165 ( Box<i64>, Vec<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R165 ( Box<W>, Vec<W>, W );
impl Make for L165 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L165 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R165 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R165 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R166)]
pub struct L166 { b: Box<i64>, a: Vec<i64>, d: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R166 { d: Vec<W>, a: Vec<W>, b: Box<W> }
impl Make for L166 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L166 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R166 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R166 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R167)]
pub struct L167 ( std::boxed::Box<i64>, ::std::vec::Vec<i64>, ::std::vec::Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R167 ( Box<W>, Vec<W>, Vec<W> );
impl Make for L167 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L167 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R167 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R167 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R168)]
pub struct L168 { b: Box<i64>, a: Vec<i64>, d: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R168 { d: Option<W>, a: Vec<W>, b: Box<W> }
impl Make for L168 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L168 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R168 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R168 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R169)]
#[auto_from(Q169)]
pub struct L169 ( Box<i64>, Vec<i64>, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R169 ( Box<W>, Vec<W>, Option<W> );
#[derive(Debug, Clone, PartialEq)]
pub struct Q169 ( Box<W>, Vec<W>, Option<W> );
impl Make for L169 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L169 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R169 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R169 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
impl Make for Q169 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q169 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R170)]
pub struct L170 { b: std::boxed::Box<i64>, a: ::std::vec::Vec<i64>, d: std::boxed::Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R170 { d: Box<W>, a: Vec<W>, b: Box<W> }
impl Make for L170 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L170 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R170 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R170 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R171)]
pub struct L171 ( Box<i64>, Vec<i64>, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R171 ( Box<W>, Vec<W>, Box<W> );
impl Make for L171 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L171 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R171 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R171 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R172)]
pub struct L172 { b: Box<i64>, a: Option<i64>, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R172 { d: W, a: Option<W>, b: Box<W> }
impl Make for L172 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L172 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R172 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R172 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R173)]
pub struct L173 ( std::boxed::Box<i64>, std::option::Option<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R173 ( Box<W>, Option<W>, W );
impl Make for L173 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L173 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R173 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R173 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R174)]
#[auto_from(Q174)]
pub struct L174 { b: Box<i64>, a: Option<i64>, d: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R174 { d: Vec<W>, a: Option<W>, b: Box<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q174 { b: Box<W>, a: Option<W>, d: Vec<W> }
impl Make for L174 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L174 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R174 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R174 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
impl Make for Q174 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q174 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R175)]
pub struct L175 ( Box<i64>, Option<i64>, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R175 ( Box<W>, Option<W>, Vec<W> );
impl Make for L175 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L175 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R175 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R175 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R176)]
pub struct L176 { b: std::boxed::Box<i64>, a: std::option::Option<i64>, d: std::option::Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R176 { d: Option<W>, a: Option<W>, b: Box<W> }
impl Make for L176 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L176 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R176 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R176 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R177)]
pub struct L177 ( Box<i64>, Option<i64>, Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R177 ( Box<W>, Option<W>, Option<W> );
impl Make for L177 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L177 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R177 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R177 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R178)]
pub struct L178 { b: Box<i64>, a: Option<i64>, d: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R178 { d: Box<W>, a: Option<W>, b: Box<W> }
impl Make for L178 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L178 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R178 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R178 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R179)]
#[auto_from(Q179)]
pub struct L179 ( std::boxed::Box<i64>, std::option::Option<i64>, std::boxed::Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R179 ( Box<W>, Option<W>, Box<W> );
#[derive(Debug, Clone, PartialEq)]
pub struct Q179 ( Box<W>, Option<W>, Box<W> );
impl Make for L179 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L179 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R179 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R179 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
impl Make for Q179 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q179 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R180)]
pub struct L180 { b: Box<i64>, a: Box<i64>, d: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R180 { d: W, a: Box<W>, b: Box<W> }
impl Make for L180 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L180 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; 300 + x as i64 } } } }
impl Make for R180 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R180 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; W(300 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R181)]
pub struct L181 ( Box<i64>, Box<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R181 ( Box<W>, Box<W>, W );
impl Make for L181 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L181 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; 300 + x as i64 } ) } }
impl Make for R181 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R181 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; W(300 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R182)]
pub struct L182 { b: std::boxed::Box<i64>, a: std::boxed::Box<i64>, d: ::std::vec::Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R182 { d: Vec<W>, a: Box<W>, b: Box<W> }
impl Make for L182 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L182 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R182 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R182 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R183)]
pub struct L183 ( Box<i64>, Box<i64>, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R183 ( Box<W>, Box<W>, Vec<W> );
impl Make for L183 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L183 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R183 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R183 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R184)]
#[auto_from(Q184)]
pub struct L184 { b: Box<i64>, a: Box<i64>, d: Option<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R184 { d: Option<W>, a: Box<W>, b: Box<W> }
#[derive(Debug, Clone, PartialEq)]
pub struct Q184 { b: Box<W>, a: Box<W>, d: Option<W> }
impl Make for L184 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L184 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } } } }
impl Make for R184 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R184 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
impl Make for Q184 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { Q184 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R185)]
pub struct L185 ( std::boxed::Box<i64>, std::boxed::Box<i64>, std::option::Option<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R185 ( Box<W>, Box<W>, Option<W> );
impl Make for L185 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L185 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ) } }
impl Make for R185 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R185 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R186)]
pub struct L186 { b: Box<i64>, a: Box<i64>, d: Box<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R186 { d: Box<W>, a: Box<W>, b: Box<W> }
impl Make for L186 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L186 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } } } }
impl Make for R186 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R186 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R187)]
pub struct L187 ( Box<i64>, Box<i64>, Box<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R187 ( Box<W>, Box<W>, Box<W> );
impl Make for L187 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { L187 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ) } }
impl Make for R187 { const MEMBERS: usize = 3; fn make(_v: usize, x: &[usize]) -> Self { R187 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R188)]
pub struct L188 { b: i64, a: i64, d: i64, c: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R188 { c: W, d: W, a: W, b: W }
impl Make for L188 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { L188 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; 300 + x as i64 }, c: { let x = x[3]; 400 + x as i64 } } } }
impl Make for R188 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { R188 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; W(300 + x as i64) }, c: { let x = x[3]; W(400 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R189)]
pub struct L189 ( i64, i64, i64, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R189 ( W, W, W, W );
impl Make for L189 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { L189 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; 300 + x as i64 }, { let x = x[3]; 400 + x as i64 } ) } }
impl Make for R189 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { R189 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; W(300 + x as i64) }, { let x = x[3]; W(400 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R190)]
pub struct L190 { b: Vec<i64>, a: Option<i64>, d: Box<i64>, c: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R190 { c: W, d: Box<W>, a: Option<W>, b: Vec<W> }
impl Make for L190 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { L190 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) }, c: { let x = x[3]; 400 + x as i64 } } } }
impl Make for R190 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { R190 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) }, c: { let x = x[3]; W(400 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R191)]
pub struct L191 ( Vec<i64>, Option<i64>, Box<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R191 ( Vec<W>, Option<W>, Box<W>, W );
impl Make for L191 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { L191 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; Box::new(300 + 7 + x as i64) }, { let x = x[3]; 400 + x as i64 } ) } }
impl Make for R191 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { R191 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) }, { let x = x[3]; W(400 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R192)]
pub struct L192 { b: Box<i64>, a: Option<i64>, d: Vec<i64>, c: i64 }
#[derive(Debug, Clone, PartialEq)]
pub struct R192 { c: W, d: Vec<W>, a: Option<W>, b: Box<W> }
impl Make for L192 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { L192 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() }, c: { let x = x[3]; 400 + x as i64 } } } }
impl Make for R192 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { R192 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() }, c: { let x = x[3]; W(400 + x as i64) } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R193)]
pub struct L193 ( Box<i64>, Option<i64>, Vec<i64>, i64 );
#[derive(Debug, Clone, PartialEq)]
pub struct R193 ( Box<W>, Option<W>, Vec<W>, W );
impl Make for L193 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { L193 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() }, { let x = x[3]; 400 + x as i64 } ) } }
impl Make for R193 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { R193 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() }, { let x = x[3]; W(400 + x as i64) } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R194)]
pub struct L194 { b: i64, a: Box<i64>, d: Box<i64>, c: Vec<i64> }
#[derive(Debug, Clone, PartialEq)]
pub struct R194 { c: Vec<W>, d: Box<W>, a: Box<W>, b: W }
impl Make for L194 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { L194 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) }, c: { let x = x[3]; (0..x % 3).map(|j| 400 + 10 * x as i64 + j as i64).collect() } } } }
impl Make for R194 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { R194 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) }, c: { let x = x[3]; (0..x % 3).map(|j| W(400 + 10 * x as i64 + j as i64)).collect() } } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R195)]
pub struct L195 ( i64, Box<i64>, Box<i64>, Vec<i64> );
#[derive(Debug, Clone, PartialEq)]
pub struct R195 ( W, Box<W>, Box<W>, Vec<W> );
impl Make for L195 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { L195 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; Box::new(300 + 7 + x as i64) }, { let x = x[3]; (0..x % 3).map(|j| 400 + 10 * x as i64 + j as i64).collect() } ) } }
impl Make for R195 { const MEMBERS: usize = 4; fn make(_v: usize, x: &[usize]) -> Self { R195 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) }, { let x = x[3]; (0..x % 3).map(|j| W(400 + 10 * x as i64 + j as i64)).collect() } ) } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R196)]
pub enum L196 { V0, V1 { b: i64 }, V2(i64), V3 { b: Vec<i64> }, V4(Vec<i64>), V5 { b: Option<i64> }, V6(Option<i64>), V7 { b: Box<i64> } }
impl Make for L196 { const VARIANTS: usize = 8; const MEMBERS: usize = 1; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L196::V0, 1 => L196::V1 { b: { let x = x[0]; 100 + x as i64 } }, 2 => L196::V2 ( { let x = x[0]; 100 + x as i64 } ), 3 => L196::V3 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() } }, 4 => L196::V4 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() } ), 5 => L196::V5 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } } }, 6 => L196::V6 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } } ), 7 => L196::V7 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R196 { V7 { b: Box<W> }, V6(Option<W>), V5 { b: Option<W> }, V4(Vec<W>), V3 { b: Vec<W> }, V2(W), V1 { b: W }, V0 }
impl Make for R196 { const VARIANTS: usize = 8; const MEMBERS: usize = 1; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R196::V0, 1 => R196::V1 { b: { let x = x[0]; W(100 + x as i64) } }, 2 => R196::V2 ( { let x = x[0]; W(100 + x as i64) } ), 3 => R196::V3 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() } }, 4 => R196::V4 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() } ), 5 => R196::V5 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } } }, 6 => R196::V6 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } } ), 7 => R196::V7 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R197)]
pub enum L197 { V0, V1(Box<i64>), V2 { b: Sub }, V3(Sub), V4 { b: i64, a: i64 }, V5(i64, i64), V6 { b: i64, a: Vec<i64> }, V7(i64, Vec<i64>), V8 { b: i64, a: Option<i64> } }
impl Make for L197 { const VARIANTS: usize = 9; const MEMBERS: usize = 2; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L197::V0, 1 => L197::V1 ( { let x = x[0]; Box::new(100 + 7 + x as i64) } ), 2 => L197::V2 { b: { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } } }, 3 => L197::V3 ( { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } } ), 4 => L197::V4 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; 200 + x as i64 } }, 5 => L197::V5 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; 200 + x as i64 } ), 6 => L197::V6 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } }, 7 => L197::V7 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } ), 8 => L197::V8 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R197 { V8 { b: W, a: Option<W> }, V7(W, Vec<W>), V6 { b: W, a: Vec<W> }, V5(W, W), V4 { b: W, a: W }, V3(SubW), V2 { b: SubW }, V1(Box<W>), V0 }
impl Make for R197 { const VARIANTS: usize = 9; const MEMBERS: usize = 2; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R197::V0, 1 => R197::V1 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) } ), 2 => R197::V2 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } } }, 3 => R197::V3 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } } ), 4 => R197::V4 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; W(200 + x as i64) } }, 5 => R197::V5 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; W(200 + x as i64) } ), 6 => R197::V6 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } }, 7 => R197::V7 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } ), 8 => R197::V8 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R198)]
pub enum L198 { V0, V1(i64, Option<i64>), V2 { b: i64, a: Box<i64> }, V3(i64, Box<i64>), V4 { b: i64, a: Sub }, V5(i64, Sub), V6 { b: Vec<i64>, a: i64 }, V7(Vec<i64>, i64), V8 { b: Vec<i64>, a: Vec<i64> } }
impl Make for L198 { const VARIANTS: usize = 9; const MEMBERS: usize = 2; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L198::V0, 1 => L198::V1 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } ), 2 => L198::V2 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) } }, 3 => L198::V3 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Box::new(200 + 7 + x as i64) } ), 4 => L198::V4 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } }, 5 => L198::V5 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } ), 6 => L198::V6 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; 200 + x as i64 } }, 7 => L198::V7 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; 200 + x as i64 } ), 8 => L198::V8 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R198 { V8 { b: Vec<W>, a: Vec<W> }, V7(Vec<W>, W), V6 { b: Vec<W>, a: W }, V5(W, SubW), V4 { b: W, a: SubW }, V3(W, Box<W>), V2 { b: W, a: Box<W> }, V1(W, Option<W>), V0 }
impl Make for R198 { const VARIANTS: usize = 9; const MEMBERS: usize = 2; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R198::V0, 1 => R198::V1 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } ), 2 => R198::V2 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } }, 3 => R198::V3 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } ), 4 => R198::V4 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } }, 5 => R198::V5 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ), 6 => R198::V6 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; W(200 + x as i64) } }, 7 => R198::V7 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; W(200 + x as i64) } ), 8 => R198::V8 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R199)]
pub enum L199 { V0, V1(Vec<i64>, Vec<i64>), V2 { b: Vec<i64>, a: Option<i64> }, V3(Vec<i64>, Option<i64>), V4 { b: Vec<i64>, a: Box<i64> }, V5(Vec<i64>, Box<i64>), V6 { b: Vec<i64>, a: Sub }, V7(Vec<i64>, Sub), V8 { b: Option<i64>, a: i64 } }
impl Make for L199 { const VARIANTS: usize = 9; const MEMBERS: usize = 2; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L199::V0, 1 => L199::V1 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } ), 2 => L199::V2 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } }, 3 => L199::V3 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } ), 4 => L199::V4 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) } }, 5 => L199::V5 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; Box::new(200 + 7 + x as i64) } ), 6 => L199::V6 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } }, 7 => L199::V7 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } ), 8 => L199::V8 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; 200 + x as i64 } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R199 { V8 { b: Option<W>, a: W }, V7(Vec<W>, SubW), V6 { b: Vec<W>, a: SubW }, V5(Vec<W>, Box<W>), V4 { b: Vec<W>, a: Box<W> }, V3(Vec<W>, Option<W>), V2 { b: Vec<W>, a: Option<W> }, V1(Vec<W>, Vec<W>), V0 }
impl Make for R199 { const VARIANTS: usize = 9; const MEMBERS: usize = 2; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R199::V0, 1 => R199::V1 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } ), 2 => R199::V2 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } }, 3 => R199::V3 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } ), 4 => R199::V4 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } }, 5 => R199::V5 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } ), 6 => R199::V6 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } }, 7 => R199::V7 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ), 8 => R199::V8 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; W(200 + x as i64) } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R200)]
pub enum L200 { V0, V1(Option<i64>, i64), V2 { b: Option<i64>, a: Vec<i64> }, V3(Option<i64>, Vec<i64>), V4 { b: Option<i64>, a: Option<i64> }, V5(Option<i64>, Option<i64>), V6 { b: Option<i64>, a: Box<i64> }, V7(Option<i64>, Box<i64>), V8 { b: Option<i64>, a: Sub } }
impl Make for L200 { const VARIANTS: usize = 9; const MEMBERS: usize = 2; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L200::V0, 1 => L200::V1 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; 200 + x as i64 } ), 2 => L200::V2 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } }, 3 => L200::V3 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } ), 4 => L200::V4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } }, 5 => L200::V5 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } ), 6 => L200::V6 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) } }, 7 => L200::V7 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; Box::new(200 + 7 + x as i64) } ), 8 => L200::V8 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R200 { V8 { b: Option<W>, a: SubW }, V7(Option<W>, Box<W>), V6 { b: Option<W>, a: Box<W> }, V5(Option<W>, Option<W>), V4 { b: Option<W>, a: Option<W> }, V3(Option<W>, Vec<W>), V2 { b: Option<W>, a: Vec<W> }, V1(Option<W>, W), V0 }
impl Make for R200 { const VARIANTS: usize = 9; const MEMBERS: usize = 2; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R200::V0, 1 => R200::V1 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; W(200 + x as i64) } ), 2 => R200::V2 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } }, 3 => R200::V3 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } ), 4 => R200::V4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } }, 5 => R200::V5 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } ), 6 => R200::V6 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } }, 7 => R200::V7 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } ), 8 => R200::V8 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R201)]
pub enum L201 { V0, V1(Option<i64>, Sub), V2 { b: Box<i64>, a: i64 }, V3(Box<i64>, i64), V4 { b: Box<i64>, a: Vec<i64> }, V5(Box<i64>, Vec<i64>), V6 { b: Box<i64>, a: Option<i64> }, V7(Box<i64>, Option<i64>), V8 { b: Box<i64>, a: Box<i64> } }
impl Make for L201 { const VARIANTS: usize = 9; const MEMBERS: usize = 2; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L201::V0, 1 => L201::V1 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } ), 2 => L201::V2 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; 200 + x as i64 } }, 3 => L201::V3 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; 200 + x as i64 } ), 4 => L201::V4 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } }, 5 => L201::V5 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } ), 6 => L201::V6 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } }, 7 => L201::V7 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } ), 8 => L201::V8 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R201 { V8 { b: Box<W>, a: Box<W> }, V7(Box<W>, Option<W>), V6 { b: Box<W>, a: Option<W> }, V5(Box<W>, Vec<W>), V4 { b: Box<W>, a: Vec<W> }, V3(Box<W>, W), V2 { b: Box<W>, a: W }, V1(Option<W>, SubW), V0 }
impl Make for R201 { const VARIANTS: usize = 9; const MEMBERS: usize = 2; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R201::V0, 1 => R201::V1 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ), 2 => R201::V2 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; W(200 + x as i64) } }, 3 => R201::V3 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; W(200 + x as i64) } ), 4 => R201::V4 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } }, 5 => R201::V5 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } ), 6 => R201::V6 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } }, 7 => R201::V7 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } ), 8 => R201::V8 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R202)]
pub enum L202 { V0, V1(Box<i64>, Box<i64>), V2 { b: Box<i64>, a: Sub }, V3(Box<i64>, Sub), V4 { b: Sub, a: i64 }, V5(Sub, i64), V6 { b: Sub, a: Vec<i64> }, V7(Sub, Vec<i64>), V8 { b: Sub, a: Option<i64> } }
impl Make for L202 { const VARIANTS: usize = 9; const MEMBERS: usize = 2; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L202::V0, 1 => L202::V1 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; Box::new(200 + 7 + x as i64) } ), 2 => L202::V2 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } }, 3 => L202::V3 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } ), 4 => L202::V4 { b: { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, a: { let x = x[1]; 200 + x as i64 } }, 5 => L202::V5 ( { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, { let x = x[1]; 200 + x as i64 } ), 6 => L202::V6 { b: { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } }, 7 => L202::V7 ( { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() } ), 8 => L202::V8 { b: { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R202 { V8 { b: SubW, a: Option<W> }, V7(SubW, Vec<W>), V6 { b: SubW, a: Vec<W> }, V5(SubW, W), V4 { b: SubW, a: W }, V3(Box<W>, SubW), V2 { b: Box<W>, a: SubW }, V1(Box<W>, Box<W>), V0 }
impl Make for R202 { const VARIANTS: usize = 9; const MEMBERS: usize = 2; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R202::V0, 1 => R202::V1 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } ), 2 => R202::V2 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } }, 3 => R202::V3 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ), 4 => R202::V4 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, a: { let x = x[1]; W(200 + x as i64) } }, 5 => R202::V5 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, { let x = x[1]; W(200 + x as i64) } ), 6 => R202::V6 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } }, 7 => R202::V7 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() } ), 8 => R202::V8 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R203)]
pub enum L203 { V0, V1(Sub, Option<i64>), V2 { b: Sub, a: Box<i64> }, V3(Sub, Box<i64>), V4 { b: Sub, a: Sub }, V5(Sub, Sub), V6 { b: i64, a: i64, d: i64 }, V7(i64, i64, i64), V8 { b: i64, a: i64, d: Vec<i64> } }
impl Make for L203 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L203::V0, 1 => L203::V1 ( { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } } ), 2 => L203::V2 { b: { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) } }, 3 => L203::V3 ( { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, { let x = x[1]; Box::new(200 + 7 + x as i64) } ), 4 => L203::V4 { b: { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, a: { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } }, 5 => L203::V5 ( { let x = x[0]; Sub { s: 100 + x as i64, t: 100 + 50 - x as i64 } }, { let x = x[1]; Sub { s: 200 + x as i64, t: 200 + 50 - x as i64 } } ), 6 => L203::V6 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L203::V7 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; 300 + x as i64 } ), 8 => L203::V8 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R203 { V8 { b: W, a: W, d: Vec<W> }, V7(W, W, W), V6 { b: W, a: W, d: W }, V5(SubW, SubW), V4 { b: SubW, a: SubW }, V3(SubW, Box<W>), V2 { b: SubW, a: Box<W> }, V1(SubW, Option<W>), V0 }
impl Make for R203 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R203::V0, 1 => R203::V1 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } } ), 2 => R203::V2 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } }, 3 => R203::V3 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) } ), 4 => R203::V4 { b: { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, a: { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } }, 5 => R203::V5 ( { let x = x[0]; SubW { s: W(100 + x as i64), t: W(100 + 50 - x as i64) } }, { let x = x[1]; SubW { s: W(200 + x as i64), t: W(200 + 50 - x as i64) } } ), 6 => R203::V6 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R203::V7 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; W(300 + x as i64) } ), 8 => R203::V8 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R204)]
pub enum L204 { V0, V1(i64, i64, Vec<i64>), V2 { b: i64, a: i64, d: Option<i64> }, V3(i64, i64, Option<i64>), V4 { b: i64, a: i64, d: Box<i64> }, V5(i64, i64, Box<i64>), V6 { b: i64, a: Vec<i64>, d: i64 }, V7(i64, Vec<i64>, i64), V8 { b: i64, a: Vec<i64>, d: Vec<i64> } }
impl Make for L204 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L204::V0, 1 => L204::V1 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L204::V2 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L204::V3 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L204::V4 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L204::V5 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L204::V6 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L204::V7 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; 300 + x as i64 } ), 8 => L204::V8 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R204 { V8 { b: W, a: Vec<W>, d: Vec<W> }, V7(W, Vec<W>, W), V6 { b: W, a: Vec<W>, d: W }, V5(W, W, Box<W>), V4 { b: W, a: W, d: Box<W> }, V3(W, W, Option<W>), V2 { b: W, a: W, d: Option<W> }, V1(W, W, Vec<W>), V0 }
impl Make for R204 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R204::V0, 1 => R204::V1 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R204::V2 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R204::V3 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R204::V4 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R204::V5 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R204::V6 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R204::V7 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; W(300 + x as i64) } ), 8 => R204::V8 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R205)]
pub enum L205 { V0, V1(i64, Vec<i64>, Vec<i64>), V2 { b: i64, a: Vec<i64>, d: Option<i64> }, V3(i64, Vec<i64>, Option<i64>), V4 { b: i64, a: Vec<i64>, d: Box<i64> }, V5(i64, Vec<i64>, Box<i64>), V6 { b: i64, a: Option<i64>, d: i64 }, V7(i64, Option<i64>, i64), V8 { b: i64, a: Option<i64>, d: Vec<i64> } }
impl Make for L205 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L205::V0, 1 => L205::V1 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L205::V2 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L205::V3 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L205::V4 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L205::V5 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L205::V6 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L205::V7 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; 300 + x as i64 } ), 8 => L205::V8 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R205 { V8 { b: W, a: Option<W>, d: Vec<W> }, V7(W, Option<W>, W), V6 { b: W, a: Option<W>, d: W }, V5(W, Vec<W>, Box<W>), V4 { b: W, a: Vec<W>, d: Box<W> }, V3(W, Vec<W>, Option<W>), V2 { b: W, a: Vec<W>, d: Option<W> }, V1(W, Vec<W>, Vec<W>), V0 }
impl Make for R205 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R205::V0, 1 => R205::V1 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R205::V2 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R205::V3 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R205::V4 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R205::V5 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R205::V6 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R205::V7 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; W(300 + x as i64) } ), 8 => R205::V8 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R206)]
pub enum L206 { V0, V1(i64, Option<i64>, Vec<i64>), V2 { b: i64, a: Option<i64>, d: Option<i64> }, V3(i64, Option<i64>, Option<i64>), V4 { b: i64, a: Option<i64>, d: Box<i64> }, V5(i64, Option<i64>, Box<i64>), V6 { b: i64, a: Box<i64>, d: i64 }, V7(i64, Box<i64>, i64), V8 { b: i64, a: Box<i64>, d: Vec<i64> } }
impl Make for L206 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L206::V0, 1 => L206::V1 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L206::V2 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L206::V3 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L206::V4 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L206::V5 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L206::V6 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L206::V7 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; 300 + x as i64 } ), 8 => L206::V8 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R206 { V8 { b: W, a: Box<W>, d: Vec<W> }, V7(W, Box<W>, W), V6 { b: W, a: Box<W>, d: W }, V5(W, Option<W>, Box<W>), V4 { b: W, a: Option<W>, d: Box<W> }, V3(W, Option<W>, Option<W>), V2 { b: W, a: Option<W>, d: Option<W> }, V1(W, Option<W>, Vec<W>), V0 }
impl Make for R206 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R206::V0, 1 => R206::V1 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R206::V2 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R206::V3 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R206::V4 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R206::V5 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R206::V6 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R206::V7 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; W(300 + x as i64) } ), 8 => R206::V8 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R207)]
pub enum L207 { V0, V1(i64, Box<i64>, Vec<i64>), V2 { b: i64, a: Box<i64>, d: Option<i64> }, V3(i64, Box<i64>, Option<i64>), V4 { b: i64, a: Box<i64>, d: Box<i64> }, V5(i64, Box<i64>, Box<i64>), V6 { b: Vec<i64>, a: i64, d: i64 }, V7(Vec<i64>, i64, i64), V8 { b: Vec<i64>, a: i64, d: Vec<i64> } }
impl Make for L207 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L207::V0, 1 => L207::V1 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L207::V2 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L207::V3 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L207::V4 { b: { let x = x[0]; 100 + x as i64 }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L207::V5 ( { let x = x[0]; 100 + x as i64 }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L207::V6 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L207::V7 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; 300 + x as i64 } ), 8 => L207::V8 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R207 { V8 { b: Vec<W>, a: W, d: Vec<W> }, V7(Vec<W>, W, W), V6 { b: Vec<W>, a: W, d: W }, V5(W, Box<W>, Box<W>), V4 { b: W, a: Box<W>, d: Box<W> }, V3(W, Box<W>, Option<W>), V2 { b: W, a: Box<W>, d: Option<W> }, V1(W, Box<W>, Vec<W>), V0 }
impl Make for R207 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R207::V0, 1 => R207::V1 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R207::V2 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R207::V3 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R207::V4 { b: { let x = x[0]; W(100 + x as i64) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R207::V5 ( { let x = x[0]; W(100 + x as i64) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R207::V6 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R207::V7 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; W(300 + x as i64) } ), 8 => R207::V8 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R208)]
pub enum L208 { V0, V1(Vec<i64>, i64, Vec<i64>), V2 { b: Vec<i64>, a: i64, d: Option<i64> }, V3(Vec<i64>, i64, Option<i64>), V4 { b: Vec<i64>, a: i64, d: Box<i64> }, V5(Vec<i64>, i64, Box<i64>), V6 { b: Vec<i64>, a: Vec<i64>, d: i64 }, V7(Vec<i64>, Vec<i64>, i64), V8 { b: Vec<i64>, a: Vec<i64>, d: Vec<i64> } }
impl Make for L208 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L208::V0, 1 => L208::V1 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L208::V2 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L208::V3 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L208::V4 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L208::V5 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L208::V6 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L208::V7 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; 300 + x as i64 } ), 8 => L208::V8 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R208 { V8 { b: Vec<W>, a: Vec<W>, d: Vec<W> }, V7(Vec<W>, Vec<W>, W), V6 { b: Vec<W>, a: Vec<W>, d: W }, V5(Vec<W>, W, Box<W>), V4 { b: Vec<W>, a: W, d: Box<W> }, V3(Vec<W>, W, Option<W>), V2 { b: Vec<W>, a: W, d: Option<W> }, V1(Vec<W>, W, Vec<W>), V0 }
impl Make for R208 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R208::V0, 1 => R208::V1 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R208::V2 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R208::V3 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R208::V4 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R208::V5 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R208::V6 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R208::V7 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; W(300 + x as i64) } ), 8 => R208::V8 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R209)]
pub enum L209 { V0, V1(Vec<i64>, Vec<i64>, Vec<i64>), V2 { b: Vec<i64>, a: Vec<i64>, d: Option<i64> }, V3(Vec<i64>, Vec<i64>, Option<i64>), V4 { b: Vec<i64>, a: Vec<i64>, d: Box<i64> }, V5(Vec<i64>, Vec<i64>, Box<i64>), V6 { b: Vec<i64>, a: Option<i64>, d: i64 }, V7(Vec<i64>, Option<i64>, i64), V8 { b: Vec<i64>, a: Option<i64>, d: Vec<i64> } }
impl Make for L209 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L209::V0, 1 => L209::V1 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L209::V2 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L209::V3 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L209::V4 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L209::V5 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L209::V6 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L209::V7 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; 300 + x as i64 } ), 8 => L209::V8 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R209 { V8 { b: Vec<W>, a: Option<W>, d: Vec<W> }, V7(Vec<W>, Option<W>, W), V6 { b: Vec<W>, a: Option<W>, d: W }, V5(Vec<W>, Vec<W>, Box<W>), V4 { b: Vec<W>, a: Vec<W>, d: Box<W> }, V3(Vec<W>, Vec<W>, Option<W>), V2 { b: Vec<W>, a: Vec<W>, d: Option<W> }, V1(Vec<W>, Vec<W>, Vec<W>), V0 }
impl Make for R209 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R209::V0, 1 => R209::V1 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R209::V2 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R209::V3 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R209::V4 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R209::V5 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R209::V6 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R209::V7 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; W(300 + x as i64) } ), 8 => R209::V8 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R210)]
pub enum L210 { V0, V1(Vec<i64>, Option<i64>, Vec<i64>), V2 { b: Vec<i64>, a: Option<i64>, d: Option<i64> }, V3(Vec<i64>, Option<i64>, Option<i64>), V4 { b: Vec<i64>, a: Option<i64>, d: Box<i64> }, V5(Vec<i64>, Option<i64>, Box<i64>), V6 { b: Vec<i64>, a: Box<i64>, d: i64 }, V7(Vec<i64>, Box<i64>, i64), V8 { b: Vec<i64>, a: Box<i64>, d: Vec<i64> } }
impl Make for L210 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L210::V0, 1 => L210::V1 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L210::V2 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L210::V3 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L210::V4 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L210::V5 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L210::V6 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L210::V7 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; 300 + x as i64 } ), 8 => L210::V8 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R210 { V8 { b: Vec<W>, a: Box<W>, d: Vec<W> }, V7(Vec<W>, Box<W>, W), V6 { b: Vec<W>, a: Box<W>, d: W }, V5(Vec<W>, Option<W>, Box<W>), V4 { b: Vec<W>, a: Option<W>, d: Box<W> }, V3(Vec<W>, Option<W>, Option<W>), V2 { b: Vec<W>, a: Option<W>, d: Option<W> }, V1(Vec<W>, Option<W>, Vec<W>), V0 }
impl Make for R210 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R210::V0, 1 => R210::V1 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R210::V2 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R210::V3 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R210::V4 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R210::V5 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R210::V6 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R210::V7 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; W(300 + x as i64) } ), 8 => R210::V8 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R211)]
pub enum L211 { V0, V1(Vec<i64>, Box<i64>, Vec<i64>), V2 { b: Vec<i64>, a: Box<i64>, d: Option<i64> }, V3(Vec<i64>, Box<i64>, Option<i64>), V4 { b: Vec<i64>, a: Box<i64>, d: Box<i64> }, V5(Vec<i64>, Box<i64>, Box<i64>), V6 { b: Option<i64>, a: i64, d: i64 }, V7(Option<i64>, i64, i64), V8 { b: Option<i64>, a: i64, d: Vec<i64> } }
impl Make for L211 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L211::V0, 1 => L211::V1 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L211::V2 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L211::V3 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L211::V4 { b: { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L211::V5 ( { let x = x[0]; (0..x % 3).map(|j| 100 + 10 * x as i64 + j as i64).collect() }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L211::V6 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L211::V7 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; 300 + x as i64 } ), 8 => L211::V8 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R211 { V8 { b: Option<W>, a: W, d: Vec<W> }, V7(Option<W>, W, W), V6 { b: Option<W>, a: W, d: W }, V5(Vec<W>, Box<W>, Box<W>), V4 { b: Vec<W>, a: Box<W>, d: Box<W> }, V3(Vec<W>, Box<W>, Option<W>), V2 { b: Vec<W>, a: Box<W>, d: Option<W> }, V1(Vec<W>, Box<W>, Vec<W>), V0 }
impl Make for R211 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R211::V0, 1 => R211::V1 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R211::V2 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R211::V3 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R211::V4 { b: { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R211::V5 ( { let x = x[0]; (0..x % 3).map(|j| W(100 + 10 * x as i64 + j as i64)).collect() }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R211::V6 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R211::V7 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; W(300 + x as i64) } ), 8 => R211::V8 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R212)]
pub enum L212 { V0, V1(Option<i64>, i64, Vec<i64>), V2 { b: Option<i64>, a: i64, d: Option<i64> }, V3(Option<i64>, i64, Option<i64>), V4 { b: Option<i64>, a: i64, d: Box<i64> }, V5(Option<i64>, i64, Box<i64>), V6 { b: Option<i64>, a: Vec<i64>, d: i64 }, V7(Option<i64>, Vec<i64>, i64), V8 { b: Option<i64>, a: Vec<i64>, d: Vec<i64> } }
impl Make for L212 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L212::V0, 1 => L212::V1 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L212::V2 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L212::V3 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L212::V4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L212::V5 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L212::V6 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L212::V7 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; 300 + x as i64 } ), 8 => L212::V8 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R212 { V8 { b: Option<W>, a: Vec<W>, d: Vec<W> }, V7(Option<W>, Vec<W>, W), V6 { b: Option<W>, a: Vec<W>, d: W }, V5(Option<W>, W, Box<W>), V4 { b: Option<W>, a: W, d: Box<W> }, V3(Option<W>, W, Option<W>), V2 { b: Option<W>, a: W, d: Option<W> }, V1(Option<W>, W, Vec<W>), V0 }
impl Make for R212 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R212::V0, 1 => R212::V1 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R212::V2 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R212::V3 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R212::V4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R212::V5 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R212::V6 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R212::V7 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; W(300 + x as i64) } ), 8 => R212::V8 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R213)]
pub enum L213 { V0, V1(Option<i64>, Vec<i64>, Vec<i64>), V2 { b: Option<i64>, a: Vec<i64>, d: Option<i64> }, V3(Option<i64>, Vec<i64>, Option<i64>), V4 { b: Option<i64>, a: Vec<i64>, d: Box<i64> }, V5(Option<i64>, Vec<i64>, Box<i64>), V6 { b: Option<i64>, a: Option<i64>, d: i64 }, V7(Option<i64>, Option<i64>, i64), V8 { b: Option<i64>, a: Option<i64>, d: Vec<i64> } }
impl Make for L213 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L213::V0, 1 => L213::V1 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L213::V2 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L213::V3 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L213::V4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L213::V5 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L213::V6 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L213::V7 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; 300 + x as i64 } ), 8 => L213::V8 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R213 { V8 { b: Option<W>, a: Option<W>, d: Vec<W> }, V7(Option<W>, Option<W>, W), V6 { b: Option<W>, a: Option<W>, d: W }, V5(Option<W>, Vec<W>, Box<W>), V4 { b: Option<W>, a: Vec<W>, d: Box<W> }, V3(Option<W>, Vec<W>, Option<W>), V2 { b: Option<W>, a: Vec<W>, d: Option<W> }, V1(Option<W>, Vec<W>, Vec<W>), V0 }
impl Make for R213 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R213::V0, 1 => R213::V1 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R213::V2 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R213::V3 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R213::V4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R213::V5 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R213::V6 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R213::V7 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; W(300 + x as i64) } ), 8 => R213::V8 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R214)]
pub enum L214 { V0, V1(Option<i64>, Option<i64>, Vec<i64>), V2 { b: Option<i64>, a: Option<i64>, d: Option<i64> }, V3(Option<i64>, Option<i64>, Option<i64>), V4 { b: Option<i64>, a: Option<i64>, d: Box<i64> }, V5(Option<i64>, Option<i64>, Box<i64>), V6 { b: Option<i64>, a: Box<i64>, d: i64 }, V7(Option<i64>, Box<i64>, i64), V8 { b: Option<i64>, a: Box<i64>, d: Vec<i64> } }
impl Make for L214 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L214::V0, 1 => L214::V1 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L214::V2 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L214::V3 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L214::V4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L214::V5 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L214::V6 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L214::V7 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; 300 + x as i64 } ), 8 => L214::V8 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R214 { V8 { b: Option<W>, a: Box<W>, d: Vec<W> }, V7(Option<W>, Box<W>, W), V6 { b: Option<W>, a: Box<W>, d: W }, V5(Option<W>, Option<W>, Box<W>), V4 { b: Option<W>, a: Option<W>, d: Box<W> }, V3(Option<W>, Option<W>, Option<W>), V2 { b: Option<W>, a: Option<W>, d: Option<W> }, V1(Option<W>, Option<W>, Vec<W>), V0 }
impl Make for R214 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R214::V0, 1 => R214::V1 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R214::V2 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R214::V3 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R214::V4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R214::V5 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R214::V6 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R214::V7 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; W(300 + x as i64) } ), 8 => R214::V8 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R215)]
pub enum L215 { V0, V1(Option<i64>, Box<i64>, Vec<i64>), V2 { b: Option<i64>, a: Box<i64>, d: Option<i64> }, V3(Option<i64>, Box<i64>, Option<i64>), V4 { b: Option<i64>, a: Box<i64>, d: Box<i64> }, V5(Option<i64>, Box<i64>, Box<i64>), V6 { b: Box<i64>, a: i64, d: i64 }, V7(Box<i64>, i64, i64), V8 { b: Box<i64>, a: i64, d: Vec<i64> } }
impl Make for L215 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L215::V0, 1 => L215::V1 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L215::V2 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L215::V3 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L215::V4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L215::V5 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(100 + x as i64) } }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L215::V6 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L215::V7 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; 300 + x as i64 } ), 8 => L215::V8 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R215 { V8 { b: Box<W>, a: W, d: Vec<W> }, V7(Box<W>, W, W), V6 { b: Box<W>, a: W, d: W }, V5(Option<W>, Box<W>, Box<W>), V4 { b: Option<W>, a: Box<W>, d: Box<W> }, V3(Option<W>, Box<W>, Option<W>), V2 { b: Option<W>, a: Box<W>, d: Option<W> }, V1(Option<W>, Box<W>, Vec<W>), V0 }
impl Make for R215 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R215::V0, 1 => R215::V1 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R215::V2 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R215::V3 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R215::V4 { b: { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R215::V5 ( { let x = x[0]; if x % 2 == 0 { None } else { Some(W(100 + x as i64)) } }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R215::V6 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R215::V7 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; W(300 + x as i64) } ), 8 => R215::V8 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R216)]
pub enum L216 { V0, V1(Box<i64>, i64, Vec<i64>), V2 { b: Box<i64>, a: i64, d: Option<i64> }, V3(Box<i64>, i64, Option<i64>), V4 { b: Box<i64>, a: i64, d: Box<i64> }, V5(Box<i64>, i64, Box<i64>), V6 { b: Box<i64>, a: Vec<i64>, d: i64 }, V7(Box<i64>, Vec<i64>, i64), V8 { b: Box<i64>, a: Vec<i64>, d: Vec<i64> } }
impl Make for L216 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L216::V0, 1 => L216::V1 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L216::V2 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L216::V3 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L216::V4 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; 200 + x as i64 }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L216::V5 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; 200 + x as i64 }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L216::V6 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L216::V7 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; 300 + x as i64 } ), 8 => L216::V8 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R216 { V8 { b: Box<W>, a: Vec<W>, d: Vec<W> }, V7(Box<W>, Vec<W>, W), V6 { b: Box<W>, a: Vec<W>, d: W }, V5(Box<W>, W, Box<W>), V4 { b: Box<W>, a: W, d: Box<W> }, V3(Box<W>, W, Option<W>), V2 { b: Box<W>, a: W, d: Option<W> }, V1(Box<W>, W, Vec<W>), V0 }
impl Make for R216 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R216::V0, 1 => R216::V1 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R216::V2 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R216::V3 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R216::V4 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; W(200 + x as i64) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R216::V5 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; W(200 + x as i64) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R216::V6 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R216::V7 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; W(300 + x as i64) } ), 8 => R216::V8 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R217)]
pub enum L217 { V0, V1(Box<i64>, Vec<i64>, Vec<i64>), V2 { b: Box<i64>, a: Vec<i64>, d: Option<i64> }, V3(Box<i64>, Vec<i64>, Option<i64>), V4 { b: Box<i64>, a: Vec<i64>, d: Box<i64> }, V5(Box<i64>, Vec<i64>, Box<i64>), V6 { b: Box<i64>, a: Option<i64>, d: i64 }, V7(Box<i64>, Option<i64>, i64), V8 { b: Box<i64>, a: Option<i64>, d: Vec<i64> } }
impl Make for L217 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L217::V0, 1 => L217::V1 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L217::V2 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L217::V3 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L217::V4 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L217::V5 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; (0..x % 3).map(|j| 200 + 10 * x as i64 + j as i64).collect() }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L217::V6 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L217::V7 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; 300 + x as i64 } ), 8 => L217::V8 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R217 { V8 { b: Box<W>, a: Option<W>, d: Vec<W> }, V7(Box<W>, Option<W>, W), V6 { b: Box<W>, a: Option<W>, d: W }, V5(Box<W>, Vec<W>, Box<W>), V4 { b: Box<W>, a: Vec<W>, d: Box<W> }, V3(Box<W>, Vec<W>, Option<W>), V2 { b: Box<W>, a: Vec<W>, d: Option<W> }, V1(Box<W>, Vec<W>, Vec<W>), V0 }
impl Make for R217 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R217::V0, 1 => R217::V1 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R217::V2 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R217::V3 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R217::V4 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R217::V5 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; (0..x % 3).map(|j| W(200 + 10 * x as i64 + j as i64)).collect() }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R217::V6 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R217::V7 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; W(300 + x as i64) } ), 8 => R217::V8 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R218)]
pub enum L218 { V0, V1(Box<i64>, Option<i64>, Vec<i64>), V2 { b: Box<i64>, a: Option<i64>, d: Option<i64> }, V3(Box<i64>, Option<i64>, Option<i64>), V4 { b: Box<i64>, a: Option<i64>, d: Box<i64> }, V5(Box<i64>, Option<i64>, Box<i64>), V6 { b: Box<i64>, a: Box<i64>, d: i64 }, V7(Box<i64>, Box<i64>, i64), V8 { b: Box<i64>, a: Box<i64>, d: Vec<i64> } }
impl Make for L218 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L218::V0, 1 => L218::V1 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L218::V2 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L218::V3 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L218::V4 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L218::V5 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(200 + x as i64) } }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), 6 => L218::V6 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; 300 + x as i64 } }, 7 => L218::V7 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; 300 + x as i64 } ), 8 => L218::V8 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R218 { V8 { b: Box<W>, a: Box<W>, d: Vec<W> }, V7(Box<W>, Box<W>, W), V6 { b: Box<W>, a: Box<W>, d: W }, V5(Box<W>, Option<W>, Box<W>), V4 { b: Box<W>, a: Option<W>, d: Box<W> }, V3(Box<W>, Option<W>, Option<W>), V2 { b: Box<W>, a: Option<W>, d: Option<W> }, V1(Box<W>, Option<W>, Vec<W>), V0 }
impl Make for R218 { const VARIANTS: usize = 9; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R218::V0, 1 => R218::V1 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R218::V2 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R218::V3 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R218::V4 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R218::V5 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; if x % 2 == 0 { None } else { Some(W(200 + x as i64)) } }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), 6 => R218::V6 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; W(300 + x as i64) } }, 7 => R218::V7 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; W(300 + x as i64) } ), 8 => R218::V8 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } }, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R219)]
pub enum L219 { V0, V1(Box<i64>, Box<i64>, Vec<i64>), V2 { b: Box<i64>, a: Box<i64>, d: Option<i64> }, V3(Box<i64>, Box<i64>, Option<i64>), V4 { b: Box<i64>, a: Box<i64>, d: Box<i64> }, V5(Box<i64>, Box<i64>, Box<i64>) }
impl Make for L219 { const VARIANTS: usize = 6; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L219::V0, 1 => L219::V1 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; (0..x % 3).map(|j| 300 + 10 * x as i64 + j as i64).collect() } ), 2 => L219::V2 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } }, 3 => L219::V3 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(300 + x as i64) } } ), 4 => L219::V4 { b: { let x = x[0]; Box::new(100 + 7 + x as i64) }, a: { let x = x[1]; Box::new(200 + 7 + x as i64) }, d: { let x = x[2]; Box::new(300 + 7 + x as i64) } }, 5 => L219::V5 ( { let x = x[0]; Box::new(100 + 7 + x as i64) }, { let x = x[1]; Box::new(200 + 7 + x as i64) }, { let x = x[2]; Box::new(300 + 7 + x as i64) } ), _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R219 { V5(Box<W>, Box<W>, Box<W>), V4 { b: Box<W>, a: Box<W>, d: Box<W> }, V3(Box<W>, Box<W>, Option<W>), V2 { b: Box<W>, a: Box<W>, d: Option<W> }, V1(Box<W>, Box<W>, Vec<W>), V0 }
impl Make for R219 { const VARIANTS: usize = 6; const MEMBERS: usize = 3; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R219::V0, 1 => R219::V1 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; (0..x % 3).map(|j| W(300 + 10 * x as i64 + j as i64)).collect() } ), 2 => R219::V2 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } }, 3 => R219::V3 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; if x % 2 == 0 { None } else { Some(W(300 + x as i64)) } } ), 4 => R219::V4 { b: { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, a: { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, d: { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } }, 5 => R219::V5 ( { let x = x[0]; Box::new(W(100 + 7 + x as i64)) }, { let x = x[1]; Box::new(W(200 + 7 + x as i64)) }, { let x = x[2]; Box::new(W(300 + 7 + x as i64)) } ), _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R220)]
pub enum L220 { V0 }
impl Make for L220 { const VARIANTS: usize = 1; const MEMBERS: usize = 0; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L220::V0, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R220 { V0 }
impl Make for R220 { const VARIANTS: usize = 1; const MEMBERS: usize = 0; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R220::V0, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
#[derive(AutoFrom)]
#[auto_from(R221)]
pub enum L221 { V0, V1, V2 }
impl Make for L221 { const VARIANTS: usize = 3; const MEMBERS: usize = 0; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => L221::V0, 1 => L221::V1, 2 => L221::V2, _ => unreachable!() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum R221 { V2, V1, V0 }
impl Make for R221 { const VARIANTS: usize = 3; const MEMBERS: usize = 0; fn make(v: usize, x: &[usize]) -> Self { match v { 0 => R221::V0, 1 => R221::V1, 2 => R221::V2, _ => unreachable!() } } }
pub fn all(ctx: &Ctx) -> usize {
    pair::<L0, R0>(ctx, "L0/R0");
    pair::<L1, R1>(ctx, "L1/R1");
    pair::<L2, R2>(ctx, "L2/R2");
    pair::<L3, R3>(ctx, "L3/R3");
    pair::<L4, R4>(ctx, "L4/R4");
    pair::<L4, Q4>(ctx, "L4/Q4");
    pair::<L5, R5>(ctx, "L5/R5");
    pair::<L6, R6>(ctx, "L6/R6");
    pair::<L7, R7>(ctx, "L7/R7");
    pair::<L8, R8>(ctx, "L8/R8");
    pair::<L9, R9>(ctx, "L9/R9");
    pair::<L9, Q9>(ctx, "L9/Q9");
    pair::<L10, R10>(ctx, "L10/R10");
    pair::<L11, R11>(ctx, "L11/R11");
    pair::<L12, R12>(ctx, "L12/R12");
    pair::<L13, R13>(ctx, "L13/R13");
    pair::<L14, R14>(ctx, "L14/R14");
    pair::<L14, Q14>(ctx, "L14/Q14");
    pair::<L15, R15>(ctx, "L15/R15");
    pair::<L16, R16>(ctx, "L16/R16");
    pair::<L17, R17>(ctx, "L17/R17");
    pair::<L18, R18>(ctx, "L18/R18");
    pair::<L19, R19>(ctx, "L19/R19");
    pair::<L19, Q19>(ctx, "L19/Q19");
    pair::<L20, R20>(ctx, "L20/R20");
    pair::<L21, R21>(ctx, "L21/R21");
    pair::<L22, R22>(ctx, "L22/R22");
    pair::<L23, R23>(ctx, "L23/R23");
    pair::<L24, R24>(ctx, "L24/R24");
    pair::<L24, Q24>(ctx, "L24/Q24");
    pair::<L25, R25>(ctx, "L25/R25");
    pair::<L26, R26>(ctx, "L26/R26");
    pair::<L27, R27>(ctx, "L27/R27");
    pair::<L28, R28>(ctx, "L28/R28");
    pair::<L29, R29>(ctx, "L29/R29");
    pair::<L29, Q29>(ctx, "L29/Q29");
    pair::<L30, R30>(ctx, "L30/R30");
    pair::<L31, R31>(ctx, "L31/R31");
    pair::<L32, R32>(ctx, "L32/R32");
    pair::<L33, R33>(ctx, "L33/R33");
    pair::<L34, R34>(ctx, "L34/R34");
    pair::<L34, Q34>(ctx, "L34/Q34");
    pair::<L35, R35>(ctx, "L35/R35");
    pair::<L36, R36>(ctx, "L36/R36");
    pair::<L37, R37>(ctx, "L37/R37");
    pair::<L38, R38>(ctx, "L38/R38");
    pair::<L39, R39>(ctx, "L39/R39");
    pair::<L39, Q39>(ctx, "L39/Q39");
    pair::<L40, R40>(ctx, "L40/R40");
    pair::<L41, R41>(ctx, "L41/R41");
    pair::<L42, R42>(ctx, "L42/R42");
    pair::<L43, R43>(ctx, "L43/R43");
    pair::<L44, R44>(ctx, "L44/R44");
    pair::<L44, Q44>(ctx, "L44/Q44");
    pair::<L45, R45>(ctx, "L45/R45");
    pair::<L46, R46>(ctx, "L46/R46");
    pair::<L47, R47>(ctx, "L47/R47");
    pair::<L48, R48>(ctx, "L48/R48");
    pair::<L49, R49>(ctx, "L49/R49");
    pair::<L49, Q49>(ctx, "L49/Q49");
    pair::<L50, R50>(ctx, "L50/R50");
    pair::<L51, R51>(ctx, "L51/R51");
    pair::<L52, R52>(ctx, "L52/R52");
    pair::<L53, R53>(ctx, "L53/R53");
    pair::<L54, R54>(ctx, "L54/R54");
    pair::<L54, Q54>(ctx, "L54/Q54");
    pair::<L55, R55>(ctx, "L55/R55");
    pair::<L56, R56>(ctx, "L56/R56");
    pair::<L57, R57>(ctx, "L57/R57");
    pair::<L58, R58>(ctx, "L58/R58");
    pair::<L59, R59>(ctx, "L59/R59");
    pair::<L59, Q59>(ctx, "L59/Q59");
    pair::<L60, R60>(ctx, "L60/R60");
    pair::<L61, R61>(ctx, "L61/R61");
    pair::<L62, R62>(ctx, "L62/R62");
    pair::<L63, R63>(ctx, "L63/R63");
    pair::<L64, R64>(ctx, "L64/R64");
    pair::<L64, Q64>(ctx, "L64/Q64");
    pair::<L65, R65>(ctx, "L65/R65");
    pair::<L66, R66>(ctx, "L66/R66");
    pair::<L67, R67>(ctx, "L67/R67");
    pair::<L68, R68>(ctx, "L68/R68");
    pair::<L69, R69>(ctx, "L69/R69");
    pair::<L69, Q69>(ctx, "L69/Q69");
    pair::<L70, R70>(ctx, "L70/R70");
    pair::<L71, R71>(ctx, "L71/R71");
    pair::<L72, R72>(ctx, "L72/R72");
    pair::<L73, R73>(ctx, "L73/R73");
    pair::<L74, R74>(ctx, "L74/R74");
    pair::<L74, Q74>(ctx, "L74/Q74");
    pair::<L75, R75>(ctx, "L75/R75");
    pair::<L76, R76>(ctx, "L76/R76");
    pair::<L77, R77>(ctx, "L77/R77");
    pair::<L78, R78>(ctx, "L78/R78");
    pair::<L79, R79>(ctx, "L79/R79");
    pair::<L79, Q79>(ctx, "L79/Q79");
    pair::<L80, R80>(ctx, "L80/R80");
    pair::<L81, R81>(ctx, "L81/R81");
    pair::<L82, R82>(ctx, "L82/R82");
    pair::<L83, R83>(ctx, "L83/R83");
    pair::<L84, R84>(ctx, "L84/R84");
    pair::<L84, Q84>(ctx, "L84/Q84");
    pair::<L85, R85>(ctx, "L85/R85");
    pair::<L86, R86>(ctx, "L86/R86");
    pair::<L87, R87>(ctx, "L87/R87");
    pair::<L88, R88>(ctx, "L88/R88");
    pair::<L89, R89>(ctx, "L89/R89");
    pair::<L89, Q89>(ctx, "L89/Q89");
    pair::<L90, R90>(ctx, "L90/R90");
    pair::<L91, R91>(ctx, "L91/R91");
    pair::<L92, R92>(ctx, "L92/R92");
    pair::<L93, R93>(ctx, "L93/R93");
    pair::<L94, R94>(ctx, "L94/R94");
    pair::<L94, Q94>(ctx, "L94/Q94");
    pair::<L95, R95>(ctx, "L95/R95");
    pair::<L96, R96>(ctx, "L96/R96");
    pair::<L97, R97>(ctx, "L97/R97");
    pair::<L98, R98>(ctx, "L98/R98");
    pair::<L99, R99>(ctx, "L99/R99");
    pair::<L99, Q99>(ctx, "L99/Q99");
    pair::<L100, R100>(ctx, "L100/R100");
    pair::<L101, R101>(ctx, "L101/R101");
    pair::<L102, R102>(ctx, "L102/R102");
    pair::<L103, R103>(ctx, "L103/R103");
    pair::<L104, R104>(ctx, "L104/R104");
    pair::<L104, Q104>(ctx, "L104/Q104");
    pair::<L105, R105>(ctx, "L105/R105");
    pair::<L106, R106>(ctx, "L106/R106");
    pair::<L107, R107>(ctx, "L107/R107");
    pair::<L108, R108>(ctx, "L108/R108");
    pair::<L109, R109>(ctx, "L109/R109");
    pair::<L109, Q109>(ctx, "L109/Q109");
    pair::<L110, R110>(ctx, "L110/R110");
    pair::<L111, R111>(ctx, "L111/R111");
    pair::<L112, R112>(ctx, "L112/R112");
    pair::<L113, R113>(ctx, "L113/R113");
    pair::<L114, R114>(ctx, "L114/R114");
    pair::<L114, Q114>(ctx, "L114/Q114");
    pair::<L115, R115>(ctx, "L115/R115");
    pair::<L116, R116>(ctx, "L116/R116");
    pair::<L117, R117>(ctx, "L117/R117");
    pair::<L118, R118>(ctx, "L118/R118");
    pair::<L119, R119>(ctx, "L119/R119");
    pair::<L119, Q119>(ctx, "L119/Q119");
    pair::<L120, R120>(ctx, "L120/R120");
    pair::<L121, R121>(ctx, "L121/R121");
    pair::<L122, R122>(ctx, "L122/R122");
    pair::<L123, R123>(ctx, "L123/R123");
    pair::<L124, R124>(ctx, "L124/R124");
    pair::<L124, Q124>(ctx, "L124/Q124");
    pair::<L125, R125>(ctx, "L125/R125");
    pair::<L126, R126>(ctx, "L126/R126");
    pair::<L127, R127>(ctx, "L127/R127");
    pair::<L128, R128>(ctx, "L128/R128");
    pair::<L129, R129>(ctx, "L129/R129");
    pair::<L129, Q129>(ctx, "L129/Q129");
    pair::<L130, R130>(ctx, "L130/R130");
    pair::<L131, R131>(ctx, "L131/R131");
    pair::<L132, R132>(ctx, "L132/R132");
    pair::<L133, R133>(ctx, "L133/R133");
    pair::<L134, R134>(ctx, "L134/R134");
    pair::<L134, Q134>(ctx, "L134/Q134");
    pair::<L135, R135>(ctx, "L135/R135");
    pair::<L136, R136>(ctx, "L136/R136");
    pair::<L137, R137>(ctx, "L137/R137");
    pair::<L138, R138>(ctx, "L138/R138");
    pair::<L139, R139>(ctx, "L139/R139");
    pair::<L139, Q139>(ctx, "L139/Q139");
    pair::<L140, R140>(ctx, "L140/R140");
    pair::<L141, R141>(ctx, "L141/R141");
    pair::<L142, R142>(ctx, "L142/R142");
    pair::<L143, R143>(ctx, "L143/R143");
    pair::<L144, R144>(ctx, "L144/R144");
    pair::<L144, Q144>(ctx, "L144/Q144");
    pair::<L145, R145>(ctx, "L145/R145");
    pair::<L146, R146>(ctx, "L146/R146");
    pair::<L147, R147>(ctx, "L147/R147");
    pair::<L148, R148>(ctx, "L148/R148");
    pair::<L149, R149>(ctx, "L149/R149");
    pair::<L149, Q149>(ctx, "L149/Q149");
    pair::<L150, R150>(ctx, "L150/R150");
    pair::<L151, R151>(ctx, "L151/R151");
    pair::<L152, R152>(ctx, "L152/R152");
    pair::<L153, R153>(ctx, "L153/R153");
    pair::<L154, R154>(ctx, "L154/R154");
    pair::<L154, Q154>(ctx, "L154/Q154");
    pair::<L155, R155>(ctx, "L155/R155");
    pair::<L156, R156>(ctx, "L156/R156");
    pair::<L157, R157>(ctx, "L157/R157");
    pair::<L158, R158>(ctx, "L158/R158");
    pair::<L159, R159>(ctx, "L159/R159");
    pair::<L159, Q159>(ctx, "L159/Q159");
    pair::<L160, R160>(ctx, "L160/R160");
    pair::<L161, R161>(ctx, "L161/R161");
    pair::<L162, R162>(ctx, "L162/R162");
    pair::<L163, R163>(ctx, "L163/R163");
    pair::<L164, R164>(ctx, "L164/R164");
    pair::<L164, Q164>(ctx, "L164/Q164");
    pair::<L165, R165>(ctx, "L165/R165");
    pair::<L166, R166>(ctx, "L166/R166");
    pair::<L167, R167>(ctx, "L167/R167");
    pair::<L168, R168>(ctx, "L168/R168");
    pair::<L169, R169>(ctx, "L169/R169");
    pair::<L169, Q169>(ctx, "L169/Q169");
    pair::<L170, R170>(ctx, "L170/R170");
    pair::<L171, R171>(ctx, "L171/R171");
    pair::<L172, R172>(ctx, "L172/R172");
    pair::<L173, R173>(ctx, "L173/R173");
    pair::<L174, R174>(ctx, "L174/R174");
    pair::<L174, Q174>(ctx, "L174/Q174");
    pair::<L175, R175>(ctx, "L175/R175");
    pair::<L176, R176>(ctx, "L176/R176");
    pair::<L177, R177>(ctx, "L177/R177");
    pair::<L178, R178>(ctx, "L178/R178");
    pair::<L179, R179>(ctx, "L179/R179");
    pair::<L179, Q179>(ctx, "L179/Q179");
    pair::<L180, R180>(ctx, "L180/R180");
    pair::<L181, R181>(ctx, "L181/R181");
    pair::<L182, R182>(ctx, "L182/R182");
    pair::<L183, R183>(ctx, "L183/R183");
    pair::<L184, R184>(ctx, "L184/R184");
    pair::<L184, Q184>(ctx, "L184/Q184");
    pair::<L185, R185>(ctx, "L185/R185");
    pair::<L186, R186>(ctx, "L186/R186");
    pair::<L187, R187>(ctx, "L187/R187");
    pair::<L188, R188>(ctx, "L188/R188");
    pair::<L189, R189>(ctx, "L189/R189");
    pair::<L190, R190>(ctx, "L190/R190");
    pair::<L191, R191>(ctx, "L191/R191");
    pair::<L192, R192>(ctx, "L192/R192");
    pair::<L193, R193>(ctx, "L193/R193");
    pair::<L194, R194>(ctx, "L194/R194");
    pair::<L195, R195>(ctx, "L195/R195");
    pair::<L196, R196>(ctx, "L196/R196");
    pair::<L197, R197>(ctx, "L197/R197");
    pair::<L198, R198>(ctx, "L198/R198");
    pair::<L199, R199>(ctx, "L199/R199");
    pair::<L200, R200>(ctx, "L200/R200");
    pair::<L201, R201>(ctx, "L201/R201");
    pair::<L202, R202>(ctx, "L202/R202");
    pair::<L203, R203>(ctx, "L203/R203");
    pair::<L204, R204>(ctx, "L204/R204");
    pair::<L205, R205>(ctx, "L205/R205");
    pair::<L206, R206>(ctx, "L206/R206");
    pair::<L207, R207>(ctx, "L207/R207");
    pair::<L208, R208>(ctx, "L208/R208");
    pair::<L209, R209>(ctx, "L209/R209");
    pair::<L210, R210>(ctx, "L210/R210");
    pair::<L211, R211>(ctx, "L211/R211");
    pair::<L212, R212>(ctx, "L212/R212");
    pair::<L213, R213>(ctx, "L213/R213");
    pair::<L214, R214>(ctx, "L214/R214");
    pair::<L215, R215>(ctx, "L215/R215");
    pair::<L216, R216>(ctx, "L216/R216");
    pair::<L217, R217>(ctx, "L217/R217");
    pair::<L218, R218>(ctx, "L218/R218");
    pair::<L219, R219>(ctx, "L219/R219");
    pair::<L220, R220>(ctx, "L220/R220");
    pair::<L221, R221>(ctx, "L221/R221");
    259
}
