#![allow(dead_code)]
//! Writing small FITS files

pub fn card(s: &str) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    assert!(v.len() <= 80);
    v.resize(80, b' ');
    v
}
pub fn pad(v: &mut Vec<u8>, with: u8) {
    while v.len() % 2880 != 0 {
        v.push(with);
    }
}
/// The header made of these cards, END being added
pub fn header(cards: &[&str]) -> Vec<u8> {
    let mut v: Vec<u8> = cards.iter().flat_map(|c| card(c)).collect();
    v.extend(card("END"));
    pad(&mut v, b' ');
    v
}
pub fn hdu(cards: &[&str], data: &[u8]) -> Vec<u8> {
    let mut v = header(cards);
    v.extend(data);
    pad(&mut v, 0);
    v
}
pub fn empty_primary() -> Vec<u8> {
    hdu(&["SIMPLE  =                    T", "BITPIX  =                    8", "NAXIS   =                    0"], &[])
}
pub fn int(k: &str, v: i64) -> String {
    format!("{k:<8}= {v:>20}")
}
pub fn string(k: &str, v: &str) -> String {
    format!("{k:<8}= '{v:<8}'")
}
/// The cards of a binary table
pub fn bintable(naxis1: usize, rows: usize, pcount: usize, forms: &[&str], more: &[String]) -> Vec<String> {
    let mut c = vec![
        string("XTENSION", "BINTABLE"),
        int("BITPIX", 8),
        int("NAXIS", 2),
        int("NAXIS1", naxis1 as i64),
        int("NAXIS2", rows as i64),
        int("PCOUNT", pcount as i64),
        int("GCOUNT", 1),
        int("TFIELDS", forms.len() as i64),
    ];
    for (i, f) in forms.iter().enumerate() {
        c.push(string(&format!("TFORM{}", i + 1), f));
    }
    c.extend(more.iter().cloned());
    c
}
pub fn hdu_s(cards: &[String], data: &[u8]) -> Vec<u8> {
    hdu(&cards.iter().map(|c| &c[..]).collect::<Vec<_>>(), data)
}
pub fn expect<T: std::fmt::Debug + PartialEq>(got: T, want: T, what: &str) {
    if got != want {
        println!("{what}: got {got:?}, expected {want:?}");
        std::process::exit(1);
    }
}
