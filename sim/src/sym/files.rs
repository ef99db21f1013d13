//! Small object files and archives.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Format {
    Elf,
    Coff,
    MachO,
    /// linked program for Windows
    Pe,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Abi {
    pub format: Format,
    /// e_machine, or the machine of COFF, or the processor type of Mach-O
    pub machine: u32,
    pub wide: bool,
    pub big: bool,
    /// ELF: EI_OSABI, Mach-O: platform, PE: subsystem
    pub osabi: u8,
    /// ELF: e_flags, Mach-O: processor subtype
    pub flags: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stack {
    NoExec,
    Exec,
    Missing,
}

#[derive(Clone)]
pub struct Sym {
    pub name: String,
    pub global: bool,
    pub weak: bool,
    pub hidden: bool,
    pub defined: bool,
}

#[derive(Clone)]
pub struct Obj {
    pub abi: Abi,
    pub stack: Stack,
    pub syms: Vec<Sym>,
    pub text: usize,
    /// Program headers (type, flags); ELF only.  With PT_INTERP it is an executable.
    pub segments: Vec<(u64, u64)>,
    /// The stack note precedes the code.
    pub note_first: bool,
}

struct Out {
    b: Vec<u8>,
    big: bool,
}
impl Out {
    fn n(&mut self, v: u64, n: usize) {
        if self.big {
            self.b.extend_from_slice(&v.to_be_bytes()[8 - n..]);
        } else {
            self.b.extend_from_slice(&v.to_le_bytes()[..n]);
        }
    }
    fn align(&mut self, a: usize) {
        while self.b.len() % a != 0 {
            self.b.push(0);
        }
    }
}

/// Where a written object keeps what a damage can hit.
pub struct Layout {
    pub shoff_field: usize,
    pub shoff_len: usize,
    /// name fields of the symbol table entries, in the order of the object's symbols with the
    /// local ones first
    pub sym_name: Vec<usize>,
}

pub fn write_obj(o: &Obj) -> (Vec<u8>, Layout) {
    match o.abi.format {
        Format::Elf => write_elf(o),
        Format::Coff => write_coff(o),
        Format::MachO => write_macho(o),
        Format::Pe => write_pe(o),
    }
}

fn ordered(o: &Obj) -> Vec<&Sym> {
    o.syms.iter().filter(|s| !s.global).chain(o.syms.iter().filter(|s| s.global)).collect()
}

fn patch(b: &mut [u8], at: usize, v: u64) {
    b[at..at + 4].copy_from_slice(&(v as u32).to_le_bytes());
}

fn write_coff(o: &Obj) -> (Vec<u8>, Layout) {
    let syms = ordered(o);
    let mut f = Out { b: Vec::new(), big: false };
    f.n(o.abi.machine as u64, 2);
    f.n(1, 2);
    f.n(0, 4);
    let shoff_field = f.b.len();
    f.n(0, 4);
    f.n(syms.len() as u64, 4);
    f.n(0, 4);
    f.b.extend_from_slice(b".text\0\0\0");
    f.n(0, 8);
    f.n(o.text as u64, 4);
    f.n(60, 4);
    f.n(0, 8);
    f.n(0, 4);
    f.n(0x6050_0020, 4);
    f.b.extend(std::iter::repeat_n(0x90, o.text));
    let at = f.b.len() as u64;
    patch(&mut f.b, shoff_field, at);
    let mut strs = Vec::new();
    let mut sym_name = Vec::new();
    for s in &syms {
        f.n(0, 4);
        sym_name.push(f.b.len());
        f.n(4 + strs.len() as u64, 4);
        strs.extend_from_slice(s.name.as_bytes());
        strs.push(0);
        f.n(0, 4);
        f.n(s.defined as u64, 2);
        f.n(0x20, 2);
        f.n(if s.global { 2 } else { 3 }, 1);
        f.n(0, 1);
    }
    f.n(4 + strs.len() as u64, 4);
    f.b.extend_from_slice(&strs);
    (f.b, Layout { shoff_field, shoff_len: 4, sym_name })
}

/// Headers only, and no symbols.
fn write_pe(o: &Obj) -> (Vec<u8>, Layout) {
    let mut f = Out { b: b"MZ".to_vec(), big: false };
    f.b.resize(0x3c, 0);
    f.n(64, 4);
    f.b.extend_from_slice(b"PE\0\0");
    f.n(o.abi.machine as u64, 2);
    f.n(1, 2);
    f.b.extend_from_slice(&[0; 12]);
    f.n(240, 2);
    f.n(0x22, 2);
    f.n(0x20b, 2);
    f.n(0, 2);
    f.b.extend_from_slice(&[0; 20]);
    f.n(0x1_4000_0000, 8);
    f.n(0x1000, 4);
    f.n(0x200, 4);
    f.n(6, 2);
    f.b.extend_from_slice(&[0; 6]);
    f.n(6, 2);
    f.b.extend_from_slice(&[0; 6]);
    f.n(0x2000, 4);
    f.n(0x400, 4);
    f.n(0, 4);
    f.n(o.abi.osabi as u64, 2);
    f.b.extend_from_slice(&[0; 2 + 32 + 4]);
    f.n(16, 4);
    f.b.extend_from_slice(&[0; 128]);
    f.b.extend_from_slice(b".text\0\0\0");
    f.n(0x10, 4);
    f.n(0x1000, 4);
    f.b.extend_from_slice(&[0; 20]);
    f.n(0x6000_0020, 4);
    (f.b, Layout { shoff_field: 0x3c, shoff_len: 4, sym_name: Vec::new() })
}

fn write_macho(o: &Obj) -> (Vec<u8>, Layout) {
    let syms = ordered(o);
    let mut f = Out { b: Vec::new(), big: false };
    f.n(0xfeed_facf, 4);
    f.n(o.abi.machine as u64, 4);
    f.n(o.abi.flags as u64, 4);
    f.n(1, 4);
    f.n(3, 4);
    f.n(152 + 24 + 24, 4);
    f.n(0, 8);
    let text = 32 + 152 + 24 + 24;
    f.n(0x19, 4);
    f.n(152, 4);
    f.b.extend_from_slice(&[0; 16]);
    f.n(0, 8);
    f.n(o.text as u64, 8);
    f.n(text as u64, 8);
    f.n(o.text as u64, 8);
    f.n(7, 4);
    f.n(7, 4);
    f.n(1, 4);
    f.n(0, 4);
    f.b.extend_from_slice(b"__text\0\0\0\0\0\0\0\0\0\0__TEXT\0\0\0\0\0\0\0\0\0\0");
    f.n(0, 8);
    f.n(o.text as u64, 8);
    f.n(text as u64, 4);
    f.n(2, 4);
    f.n(0, 8);
    f.n(0x8000_0400, 4);
    f.b.extend_from_slice(&[0; 12]);
    f.n(0x32, 4);
    f.n(24, 4);
    f.n(o.abi.osabi as u64, 4);
    f.n(0x000b_0000, 4);
    f.n(0, 8);
    f.n(2, 4);
    f.n(24, 4);
    let shoff_field = f.b.len();
    f.n(0, 4);
    f.n(syms.len() as u64, 4);
    let stroff = f.b.len();
    f.n(0, 8);
    assert_eq!(f.b.len(), text);
    f.b.extend(std::iter::repeat_n(0x90, o.text));
    f.align(8);
    let at = f.b.len() as u64;
    patch(&mut f.b, shoff_field, at);
    let mut strs = vec![0u8];
    let mut sym_name = Vec::new();
    for s in &syms {
        sym_name.push(f.b.len());
        f.n(strs.len() as u64, 4);
        strs.push(b'_');
        strs.extend_from_slice(s.name.as_bytes());
        strs.push(0);
        let ty = if s.defined { 0xe } else { 0 } | s.global as u64 | ((s.global && s.hidden) as u64) << 4;
        f.n(ty, 1);
        f.n(s.defined as u64, 1);
        f.n(0, 2);
        f.n(0, 8);
    }
    let at = f.b.len() as u64;
    patch(&mut f.b, stroff, at);
    patch(&mut f.b, stroff + 4, strs.len() as u64);
    f.b.extend_from_slice(&strs);
    (f.b, Layout { shoff_field, shoff_len: 4, sym_name })
}

fn write_elf(o: &Obj) -> (Vec<u8>, Layout) {
    let w = if o.abi.wide { 8 } else { 4 };
    let mut f = Out { b: Vec::new(), big: o.abi.big };
    f.b.extend_from_slice(&[0x7f, b'E', b'L', b'F', if o.abi.wide { 2 } else { 1 }, if o.abi.big { 2 } else { 1 }, 1, o.abi.osabi]);
    f.b.extend_from_slice(&[0; 8]);
    let executable = o.segments.iter().any(|s| s.0 == 3);
    let ehsize = if o.abi.wide { 64 } else { 52 };
    f.n(if executable { 3 } else { 1 }, 2);
    f.n(o.abi.machine as u64, 2);
    f.n(1, 4);
    f.n(0, w);
    f.n(if o.segments.is_empty() { 0 } else { ehsize }, w);
    let shoff_field = f.b.len();
    f.n(0, w);
    f.n(o.abi.flags as u64, 4);
    let shent = if o.abi.wide { 64 } else { 40 };
    f.n(ehsize, 2);
    f.n(if o.segments.is_empty() { 0 } else if o.abi.wide { 56 } else { 32 }, 2);
    f.n(o.segments.len() as u64, 2);
    f.n(shent, 2);
    let nsec_field = f.b.len();
    f.n(0, 2);
    f.n(0, 2);
    for &(ty, flags) in &o.segments {
        f.n(ty, 4);
        if o.abi.wide {
            f.n(flags, 4);
        }
        for _ in 0..5 {
            f.n(0, w);
        }
        if !o.abi.wide {
            f.n(flags, 4);
        }
        f.n(1, w);
    }
    // sections: (name, type, flags, offset, size, link, info, align, entsize)
    let mut secs: Vec<(&str, u64, u64, usize, usize, u64, u64, u64, u64)> = vec![("", 0, 0, 0, 0, 0, 0, 0, 0)];
    let at = f.b.len();
    for k in 0..o.text {
        f.b.push(0x90 ^ (k as u8 & 3));
    }
    let code = secs.len() + (o.note_first && o.stack != Stack::Missing) as usize;
    match o.stack {
        Stack::Missing => {}
        s => secs.push((".note.GNU-stack", 1, if s == Stack::Exec { 4 } else { 0 }, f.b.len(), 0, 0, 0, 1, 0)),
    }
    secs.insert(code, (".text", 1, 6, at, o.text, 0, 0, 4, 0));
    // symbols, locals first
    let syms = ordered(o);
    let nlocal = o.syms.iter().filter(|s| !s.global).count() as u64 + 1;
    let mut strs = vec![0u8];
    f.align(8);
    let sym_at = f.b.len();
    let ent = if o.abi.wide { 24 } else { 16 };
    f.b.extend(std::iter::repeat_n(0, ent));
    let mut sym_name = Vec::new();
    for s in &syms {
        let name = strs.len() as u64;
        strs.extend_from_slice(s.name.as_bytes());
        strs.push(0);
        sym_name.push(f.b.len());
        let info = if !s.global { 0 } else if s.weak { 0x20 } else { 0x10 } | if s.defined { 2 } else { 0 };
        let (vis, sh) = (if s.hidden { 2 } else { 0 }, if s.defined { code as u64 } else { 0 });
        f.n(name, 4);
        if o.abi.wide {
            f.n(info, 1);
            f.n(vis, 1);
            f.n(sh, 2);
            f.n(0, 8);
            f.n(4, 8);
        } else {
            f.n(0, 4);
            f.n(4, 4);
            f.n(info, 1);
            f.n(vis, 1);
            f.n(sh, 2);
        }
    }
    let n = secs.len() as u64;
    secs.push((".symtab", 2, 0, sym_at, f.b.len() - sym_at, n + 1, nlocal, 8, ent as u64));
    secs.push((".strtab", 3, 0, f.b.len(), strs.len(), 0, 0, 1, 0));
    f.b.extend_from_slice(&strs);
    let mut names = Vec::new();
    let mut idx = Vec::new();
    for s in secs.iter().map(|s| s.0).chain([".shstrtab"]) {
        idx.push(names.len() as u64);
        names.extend_from_slice(s.as_bytes());
        names.push(0);
    }
    secs.push((".shstrtab", 3, 0, f.b.len(), names.len(), 0, 0, 1, 0));
    f.b.extend_from_slice(&names);
    f.align(8);
    let shoff = f.b.len();
    for (k, s) in secs.iter().enumerate() {
        f.n(idx[k], 4);
        f.n(s.1, 4);
        f.n(s.2, w);
        f.n(0, w);
        f.n(s.3 as u64, w);
        f.n(s.4 as u64, w);
        f.n(s.5, 4);
        f.n(s.6, 4);
        f.n(s.7, w);
        f.n(s.8, w);
    }
    let mut patch = |at: usize, v: u64, n: usize| {
        let mut t = Out { b: Vec::new(), big: o.abi.big };
        t.n(v, n);
        f.b[at..at + n].copy_from_slice(&t.b);
    };
    patch(shoff_field, shoff as u64, w);
    patch(nsec_field, secs.len() as u64, 2);
    patch(nsec_field + 2, secs.len() as u64 - 1, 2);
    (f.b, Layout { shoff_field, shoff_len: w, sym_name })
}

/// Archive with a symbol index.  Returns the bytes and, per member, (header offset, data offset,
/// data length).
pub fn write_archive(members: &[(String, Vec<u8>, Vec<String>)]) -> (Vec<u8>, Vec<(usize, usize, usize)>) {
    let nsym: usize = members.iter().map(|m| m.2.len()).sum();
    let strs: usize = members.iter().flat_map(|m| m.2.iter()).map(|s| s.len() + 1).sum();
    let isize = 4 + 4 * nsym + strs;
    let mut at = 8 + 60 + isize + isize % 2;
    let mut pos = Vec::new();
    for m in members {
        pos.push((at, at + 60, m.1.len()));
        at += 60 + m.1.len() + m.1.len() % 2;
    }
    let mut b = b"!<arch>\n".to_vec();
    let hdr = |b: &mut Vec<u8>, name: &str, n: usize| b.extend_from_slice(format!("{name:<16}{:<12}{:<6}{:<6}{:<8}{n:<10}`\n", 0, 0, 0, 644).as_bytes());
    hdr(&mut b, "/", isize);
    b.extend_from_slice(&(nsym as u32).to_be_bytes());
    for (m, p) in members.iter().zip(&pos) {
        for _ in &m.2 {
            b.extend_from_slice(&(p.0 as u32).to_be_bytes());
        }
    }
    for s in members.iter().flat_map(|m| m.2.iter()) {
        b.extend_from_slice(s.as_bytes());
        b.push(0);
    }
    if b.len() % 2 == 1 {
        b.push(b'\n');
    }
    for m in members {
        hdr(&mut b, &(m.0.clone() + "/"), m.1.len());
        b.extend_from_slice(&m.1);
        if b.len() % 2 == 1 {
            b.push(b'\n');
        }
    }
    (b, pos)
}
