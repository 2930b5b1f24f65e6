//! The strip tool.
use crate::link::{In, Sy, TEXT};
use crate::obj::*;
use crate::sym::{self, *};
use telda2::aalv::obj::*;

/// Objects of every kind, behind a prefix, all stripping modes.
pub fn strip(part: u64) {
    let mut o = any_object(part);
    let old = if part == 0 || part == 4 { any_prefix() } else { vec![] };
    o.file_offset = old.len() as u64;
    for s in &o.symbols.0 {
        assume(representable(&s.name, s.is_global));
    }
    sym::fs_write("f", &old);
    check("input-written", o.write_to_file("f").is_ok());
    let before = sym::fs_read("f").unwrap_or_default();
    let mode = choice(3) as usize;
    let args: &[&str] = [&["tstrip", "f"] as &[&str], &["tstrip", "-a", "f"], &["tstrip", "-a", "-f", "f"]][mode];
    let rc = sym::run(args);
    if mode == 1 && o.entry.is_none() {
        check("refused", rc != 0);
        check("refusal-keeps-file", same(&sym::fs_read("f").unwrap_or_default(), &before));
        cover("refused");
        return;
    }
    check("stripped", rc == 0);
    let now = sym::fs_read("f").unwrap_or_default();
    check("prefix-kept", now.len() >= old.len() && same(&now[..old.len()], &old));
    if mode == 0 {
        for s in &mut o.symbols.0 {
            if !s.is_global {
                s.name = "".into();
            }
        }
    } else {
        o.symbols.0.clear();
        o.relocation_table.0.clear();
    }
    match Object::from_file("f") {
        Ok(r) => {
            check("file-offset", r.file_offset == o.file_offset);
            same_object(&o, &r);
            cover(["partial", "full", "forced"][mode]);
            std::mem::forget(r);
        }
        Err(e) => {
            std::mem::forget(e);
            check("output-readable", false);
        }
    }
    std::mem::forget(o);
}
/// Several files, some of which cannot be stripped.
pub fn several() {
    const F: [&str; 3] = ["1", "2", "3"];
    let all = choice(2) == 1;
    let mut args = vec!["tstrip"];
    if all {
        args.push("-a");
    }
    let mut want: Vec<Option<Vec<u8>>> = vec![];
    let mut bad = 0;
    for i in 0..3 {
        let mut o = Object::default();
        o.segs.insert(SegmentType::Text, (any_u16(), any_bytes(1)));
        o.symbols.0.push(SymbolDefinition { name: "n".into(), is_global: false, segment_type: SegmentType::Text, location: any_u16() });
        let k = choice(4);
        if k != 1 {
            o.entry = Some(Entry(SegmentType::Text, any_u16()));
        }
        args.push(F[i]);
        check("input-written", o.write_to_file(F[i]).is_ok());
        let mut f = sym::fs_read(F[i]).unwrap_or_default();
        match k {
            2 => {
                let n = f.len() - 1 - choice(3) as usize;
                f.truncate(n);
                sym::fs_write(F[i], &f);
            }
            3 => {
                f = any_bytes(4);
                sym::fs_write(F[i], &f);
            }
            _ => {}
        }
        let fails = k > 1 || k == 1 && all;
        bad += fails as u32;
        want.push(fails.then_some(f));
        std::mem::forget(o);
    }
    let rc = sym::run(&args);
    check("success-iff-all-stripped", (rc == 0) == (bad == 0));
    for i in 0..3 {
        match &want[i] {
            Some(f) => check("failure-keeps-file", same(&sym::fs_read(F[i]).unwrap_or_default(), f)),
            None => match Object::from_file(F[i]) {
                Ok(o) => {
                    check("stripped", if all { o.symbols.0.is_empty() } else { o.symbols.0.len() == 1 && o.symbols.0[0].name.is_empty() });
                    std::mem::forget(o);
                }
                Err(e) => {
                    std::mem::forget(e);
                    check("output-readable", false)
                }
            },
        }
    }
}
/// A stripped object links like the original.
pub fn relink() {
    let mut v: Vec<In> = vec![];
    for i in 0..2 {
        let mut o = In::new();
        o.segs.push((TEXT, any_u16(), any_bytes(7)));
        o.segs.push((0, any_u16(), any_bytes(2)));
        assume(o.segs[0].1 < 0xfff0);
        assume(o.segs[1].1 < 0xfff0);
        for (j, name) in ["x", "y"].into_iter().enumerate() {
            let k = choice(3);
            let k = if i == 1 && k == 0 && v[0].syms[j].global && v[0].syms[j].seg.is_some() { 1 } else { k };
            o.syms.push(match k {
                0 => Sy { name, global: true, seg: Some(0), off: any_off(2) },
                1 => Sy { name, global: true, seg: None, off: 0 },
                _ => Sy { name, global: false, seg: Some(TEXT), off: any_off(7) },
            });
            o.rels.push((TEXT, j * 3, j));
        }
        if i == 0 {
            o.entry = Some((TEXT, any_off(7)));
        }
        v.push(o);
    }
    const F: [&str; 2] = ["0.to", "1.to"];
    for i in 0..2 {
        v[i].save(F[i]);
    }
    check("links", sym::run(&["tl", "-o", "a.to", "0.to", "1.to"]) == 0);
    let k = choice(3) as usize;
    for (i, f) in F.iter().enumerate() {
        if k == i || k == 2 {
            check("strips", sym::run(&["tstrip", f]) == 0);
        }
    }
    check("stripped-links", sym::run(&["tl", "-o", "b.to", "0.to", "1.to"]) == 0);
    let (Ok(mut a), Ok(mut b)) = (Object::from_file("a.to"), Object::from_file("b.to")) else {
        check("output-readable", false);
        return;
    };
    for o in [&mut a, &mut b] {
        for s in &mut o.symbols.0 {
            if !s.is_global {
                s.name = "".into();
            }
        }
    }
    same_object(&a, &b);
    std::mem::forget((a, b));
    std::mem::forget(v);
}
fn any_off(len: usize) -> u16 {
    let s = any_u16();
    assume(s <= len as u16);
    s
}
