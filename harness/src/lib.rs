//! Harnesses for the symbolic engine: each `h_*` function sets up arbitrary
//! inputs, runs telda code and states what has to hold afterwards.
#![allow(clippy::all)]
pub mod asm;
pub mod cpu;
pub mod disasm;
pub mod kernel;
pub mod link;
pub mod obj;
pub mod spec;
pub mod strip;
pub mod sym;
pub mod tools;

macro_rules! harnesses {
    ($($f:ident($($m:ident)::*, $($a:ident),*);)*) => {
        $(#[no_mangle]
        pub extern "C" fn $f($($a: u64),*) {
            $($m)::*($($a),*)
        })*
        pub fn dispatch(name: &str, p: &[u64]) -> bool {
            match name {
                $(stringify!($f) => {
                    #[allow(unused_mut, unused_variables)]
                    let mut it = p.iter().copied();
                    $(let $a = it.next().expect("harness argument");)*
                    $($m)::*($($a),*);
                    true
                })*
                _ => false,
            }
        }
    };
}
harnesses! {
    h_align(cpu::align,);
    h_instr(asm::instr, max);
    h_lit_any(asm::lit_any, n);
    h_lit_form(asm::lit_form, n);
    h_string(asm::string, n);
    h_lines(asm::lines, n);
    h_lines_after(asm::lines_after, n);
    h_names(asm::names, n);
    h_compile(asm::compile, n);
    h_compile_after(asm::compile_after, n);
    h_compile_many(asm::compile_many, n);
    h_compile_forms(asm::compile_forms,);
    h_staged(asm::staged,);
    h_strip(strip::strip, part);
    h_strip_several(strip::several,);
    h_strip_relink(strip::relink,);
    h_disasm(disasm::one, from, to, label);
    h_disasm_any(disasm::any, vm, all);
    h_run(tools::run, n, raw);
    h_refuse(tools::refuse,);
    h_dump_symbols(tools::dump_symbols, n);
    h_dump_code(tools::dump_code,);
    h_dump_several(tools::dump_several,);
    h_layout(asm::layout, n);
    h_big(asm::big,);
    h_crash(asm::crash, n);
    h_include(asm::include, n);
    h_roundtrip(obj::roundtrip, part);
    h_large(obj::large,);
    h_read_any(obj::read_any, with, n);
    h_read_section(obj::read_section, kind, n);
    h_damaged(obj::damaged, kind);
    h_archive(obj::archive, n);
    h_archive_tool(obj::archive_tool, n);
    h_link_layout(link::layout, n);
    h_link_names(link::names, n, opts);
    h_link_words(link::words, n, m);
    h_link_words_archive(link::words_archive, n, m);
    h_link_fail(link::failures,);
    h_link_archives(link::archives, n, k, exec);
    h_link_big(link::big,);
    h_regfile(cpu::regfile,);
    h_step(cpu::step, group);
    h_total(cpu::total, vm);
    h_userstep(cpu::userstep,);
    h_deliver(cpu::deliver,);
    h_vdeliver(cpu::vdeliver, user);
    h_vstep(cpu::vstep, user, from, to);
    h_physmem(kernel::physmem, n);
    h_pages(kernel::pages, n);
    h_load_one(kernel::load_one, kind);
    h_load_many(kernel::load_many,);
    h_load_top(kernel::load_top,);
    h_kernel(kernel::kernel,);
    h_kernel_vm(kernel::kernel_vm,);
    h_vaccess(cpu::vaccess, kind);
}
