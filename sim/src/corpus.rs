// @generated by gen_sites.py
use core::fmt::Write;
use stylish::Arguments;
use crate::val::Val;

pub struct Site {
    pub spec: &'static str,
    pub n: usize,
    pub styl: fn(&[Val], &mut dyn FnMut(Arguments<'_>)),
    pub std: fn(&[Val], &mut dyn Write) -> core::fmt::Result,
}


/// The writing macros take anything with such a method.
struct K<'a>(&'a mut dyn FnMut(Arguments<'_>));
impl K<'_> {
    fn write_fmt(&mut self, a: Arguments<'_>) {
        (self.0)(a)
    }
}

pub static SITES: &[Site] = &[
    Site { spec: "{:(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:}", v[0]) },
    Site { spec: "{:(bg=blue,bold)x}", n: 1, styl: |v, k| k(stylish::format_args!("{:(bg=blue,bold)x}", v[0])), std: |v, o| core::write!(o, "{:x}", v[0]) },
    Site { spec: "{:?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:", "?}"), v[0])), std: |v, o| core::write!(o, "{:?}", v[0]) },
    Site { spec: "{:x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:x?}", v[0])), std: |v, o| core::write!(o, "{:x?}", v[0]) },
    Site { spec: "{:X?}\r\n", n: 1, styl: |v, k| stylish::write!(K(k), "{:X?}\r\n", v[0]), std: |v, o| core::write!(o, "{:X?}\r\n", v[0]) },
    Site { spec: "{:.70(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:.70(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:.70}", v[0]) },
    Site { spec: "{:.70(fg=red)e}}}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:.70(fg=red)e}}}", v[0]), std: |v, o| core::writeln!(o, "{:.70e}}}", v[0]) },
    Site { spec: "{:.70?}", n: 1, styl: |v, k| k(stylish::format_args!("{:.70?}", v[0])), std: |v, o| core::write!(o, "{:.70?}", v[0]) },
    Site { spec: "{:.70x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:.70x?}", v[0])), std: |v, o| core::write!(o, "{:.70x?}", v[0]) },
    Site { spec: "{:.70X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{:.70X?}"), v[0])), std: |v, o| core::write!(o, "{:.70X?}", v[0]) },
    Site { spec: "{:300}\0", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:300}\0", v[0]), std: |v, o| core::writeln!(o, "{:300}\0", v[0]) },
    Site { spec: "{:300o}", n: 1, styl: |v, k| k(stylish::format_args!("{:300o}", v[0])), std: |v, o| core::write!(o, "{:300o}", v[0]) },
    Site { spec: "{:300?}", n: 1, styl: |v, k| k(stylish::format_args!("{:300?}", v[0])), std: |v, o| core::write!(o, "{:300?}", v[0]) },
    Site { spec: "{:300x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{:300x?}"), v[0])), std: |v, o| core::write!(o, "{:300x?}", v[0]) },
    Site { spec: "{:300X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:300X?}", v[0])), std: |v, o| core::write!(o, "{:300X?}", v[0]) },
    Site { spec: "{:12.9}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:12.9}", ""), v[0])), std: |v, o| core::write!(o, "{:12.9}", v[0]) },
    Site { spec: "{:12.9(fg=red)e}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:12.9(fg=red)e", "}"), v[0])), std: |v, o| core::write!(o, "{:12.9e}", v[0]) },
    Site { spec: "{:12.9(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:12.9(bg=", "blue,bold)?}"), v[0])), std: |v, o| core::write!(o, "{:12.9?}", v[0]) },
    Site { spec: "{:12.9(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:12.9(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:12.9x?}", v[0]) },
    Site { spec: "{:12.9(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:12.9(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:12.9X?}", v[0]) },
    Site { spec: "{:0}", n: 1, styl: |v, k| k(stylish::format_args!("{:0}", v[0])), std: |v, o| core::write!(o, "{:0}", v[0]) },
    Site { spec: "{:0E}", n: 1, styl: |v, k| k(stylish::format_args!("{:0E}", v[0])), std: |v, o| core::write!(o, "{:0E}", v[0]) },
    Site { spec: "{:0?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{", ":0?}"), v[0])), std: |v, o| core::write!(o, "{:0?}", v[0]) },
    Site { spec: "{:0(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:0(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:0x?}", v[0]) },
    Site { spec: "{:0(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:0(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:0X?}", v[0]) },
    Site { spec: "{:0.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:0.0}", v[0])), std: |v, o| core::write!(o, "{:0.0}", v[0]) },
    Site { spec: "{:0.0X}", n: 1, styl: |v, k| stylish::write!(K(k), "{:0.0X}", v[0]), std: |v, o| core::write!(o, "{:0.0X}", v[0]) },
    Site { spec: "{:0.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{:0.0?}", v[0])), std: |v, o| core::write!(o, "{:0.0?}", v[0]) },
    Site { spec: "{:0.0(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:0.0(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:0.0x?}", v[0]) },
    Site { spec: "{:0.0(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:0.0(fg=red)X", "?}"), v[0])), std: |v, o| core::write!(o, "{:0.0X?}", v[0]) },
    Site { spec: "{:00}", n: 1, styl: |v, k| k(stylish::format_args!("{:00}", v[0])), std: |v, o| core::write!(o, "{:00}", v[0]) },
    Site { spec: "{:00p}", n: 1, styl: |v, k| k(stylish::format_args!("{:00p}", v[0])), std: |v, o| core::write!(o, "{:00p}", v[0]) },
    Site { spec: "{:00?}", n: 1, styl: |v, k| k(stylish::format_args!("{:00?}", v[0])), std: |v, o| core::write!(o, "{:00?}", v[0]) },
    Site { spec: "{:00x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:00x?}", v[0])), std: |v, o| core::write!(o, "{:00x?}", v[0]) },
    Site { spec: "{:00(fg=red)X?}\n", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:00(fg=red)X?}\n", v[0]), std: |v, o| core::writeln!(o, "{:00X?}\n", v[0]) },
    Site { spec: "{:07.9}", n: 1, styl: |v, k| k(stylish::format_args!("{:07.9}", v[0])), std: |v, o| core::write!(o, "{:07.9}", v[0]) },
    Site { spec: "{:07.9e}", n: 1, styl: |v, k| k(stylish::format_args!("{:07.9e}", v[0])), std: |v, o| core::write!(o, "{:07.9e}", v[0]) },
    Site { spec: "{:07.9(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:07.9(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:07.9?}", v[0]) },
    Site { spec: "{:07.9(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:07.9(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:07.9x?}", v[0]) },
    Site { spec: "{:07.9(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:07.9(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:07.9X?}", v[0]) },
    Site { spec: "{:#}", n: 1, styl: |v, k| stylish::write!(K(k), "{:#}", v[0]), std: |v, o| core::write!(o, "{:#}", v[0]) },
    Site { spec: "{:#E}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:#E}", ""), v[0])), std: |v, o| core::write!(o, "{:#E}", v[0]) },
    Site { spec: "{:#(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:#?}", v[0]) },
    Site { spec: "{:#x?}\\", n: 1, styl: |v, k| stylish::write!(K(k), "{:#x?}\\", v[0]), std: |v, o| core::write!(o, "{:#x?}\\", v[0]) },
    Site { spec: "{:#X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#X?}", v[0])), std: |v, o| core::write!(o, "{:#X?}", v[0]) },
    Site { spec: "{:#.4(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:#.4(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:#.4}", v[0]) },
    Site { spec: "{:#.4x}", n: 1, styl: |v, k| k(stylish::format_args!("{:#.4x}", v[0])), std: |v, o| core::write!(o, "{:#.4x}", v[0]) },
    Site { spec: "{:#.4?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{:#.4?}"), v[0])), std: |v, o| core::write!(o, "{:#.4?}", v[0]) },
    Site { spec: "{:#.4x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#.4x?}", v[0])), std: |v, o| core::write!(o, "{:#.4x?}", v[0]) },
    Site { spec: "{:#.4(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#.4(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:#.4X?}", v[0]) },
    Site { spec: "{:#2}", n: 1, styl: |v, k| k(stylish::format_args!("{:#2}", v[0])), std: |v, o| core::write!(o, "{:#2}", v[0]) },
    Site { spec: "{:#2o}", n: 1, styl: |v, k| k(stylish::format_args!("{:#2o}", v[0])), std: |v, o| core::write!(o, "{:#2o}", v[0]) },
    Site { spec: "{:#2(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:#2(bg=blue,bol", "d)?}"), v[0])), std: |v, o| core::write!(o, "{:#2?}", v[0]) },
    Site { spec: "{:#2(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#2(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:#2x?}", v[0]) },
    Site { spec: "{:#2X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#2X?}", v[0])), std: |v, o| core::write!(o, "{:#2X?}", v[0]) },
    Site { spec: "{:#300.9}\n", n: 1, styl: |v, k| stylish::write!(K(k), "{:#300.9}\n", v[0]), std: |v, o| core::write!(o, "{:#300.9}\n", v[0]) },
    Site { spec: "{:#300.9x}", n: 1, styl: |v, k| k(stylish::format_args!("{:#300.9x}", v[0])), std: |v, o| core::write!(o, "{:#300.9x}", v[0]) },
    Site { spec: "{:#300.9(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#300.9(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:#300.9?}", v[0]) },
    Site { spec: "{:#300.9x?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:#300.9x?}", v[0]), std: |v, o| core::writeln!(o, "{:#300.9x?}", v[0]) },
    Site { spec: "{:#300.9X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#300.9X?}", v[0])), std: |v, o| core::write!(o, "{:#300.9X?}", v[0]) },
    Site { spec: "{:#0(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:#0(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:#0}", v[0]) },
    Site { spec: "{:#0p}", n: 1, styl: |v, k| k(stylish::format_args!("{:#0p}", v[0])), std: |v, o| core::write!(o, "{:#0p}", v[0]) },
    Site { spec: "{:#0(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#0(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:#0?}", v[0]) },
    Site { spec: "{:#0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#0x?}", v[0])), std: |v, o| core::write!(o, "{:#0x?}", v[0]) },
    Site { spec: "{:#0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#0X?}", v[0])), std: |v, o| core::write!(o, "{:#0X?}", v[0]) },
    Site { spec: "{:#0.0(bg=blue,bold)}", n: 1, styl: |v, k| stylish::write!(K(k), "{:#0.0(bg=blue,bold)}", v[0]), std: |v, o| core::write!(o, "{:#0.0}", v[0]) },
    Site { spec: "{:#0.0x}", n: 1, styl: |v, k| k(stylish::format_args!("{:#0.0x}", v[0])), std: |v, o| core::write!(o, "{:#0.0x}", v[0]) },
    Site { spec: "{:#0.0(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#0.0(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:#0.0?}", v[0]) },
    Site { spec: "{:#0.0(bg=blue,bold)x?}{{", n: 1, styl: |v, k| stylish::write!(K(k), "{:#0.0(bg=blue,bold)x?}{{", v[0]), std: |v, o| core::write!(o, "{:#0.0x?}{{", v[0]) },
    Site { spec: "{:#0.0(fg=red)X?}\t", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:#0.0(fg=red)X?}\t", v[0]), std: |v, o| core::writeln!(o, "{:#0.0X?}\t", v[0]) },
    Site { spec: "{:#07}", n: 1, styl: |v, k| k(stylish::format_args!("{:#07}", v[0])), std: |v, o| core::write!(o, "{:#07}", v[0]) },
    Site { spec: "{:#07E}", n: 1, styl: |v, k| k(stylish::format_args!("{:#07E}", v[0])), std: |v, o| core::write!(o, "{:#07E}", v[0]) },
    Site { spec: "{:#07(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#07(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:#07?}", v[0]) },
    Site { spec: "{:#07x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#07x?}", v[0])), std: |v, o| core::write!(o, "{:#07x?}", v[0]) },
    Site { spec: "{:#07(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#07(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:#07X?}", v[0]) },
    Site { spec: "{:#00.1}", n: 1, styl: |v, k| k(stylish::format_args!("{:#00.1}", v[0])), std: |v, o| core::write!(o, "{:#00.1}", v[0]) },
    Site { spec: "{:#00.1x}", n: 1, styl: |v, k| k(stylish::format_args!("{:#00.1x}", v[0])), std: |v, o| core::write!(o, "{:#00.1x}", v[0]) },
    Site { spec: "{:#00.1?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#00.1?}", v[0])), std: |v, o| core::write!(o, "{:#00.1?}", v[0]) },
    Site { spec: "{:#00.1(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:#00.1(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:#00.1x?}", v[0]) },
    Site { spec: "{:#00.1X?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:#00.1X?}", v[0]), std: |v, o| core::writeln!(o, "{:#00.1X?}", v[0]) },
    Site { spec: "{:+}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{:+}"), v[0])), std: |v, o| core::write!(o, "{:+}", v[0]) },
    Site { spec: "{:+(fg=red)o}", n: 1, styl: |v, k| k(stylish::format_args!("{:+(fg=red)o}", v[0])), std: |v, o| core::write!(o, "{:+o}", v[0]) },
    Site { spec: "{:+?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+?}", v[0])), std: |v, o| core::write!(o, "{:+?}", v[0]) },
    Site { spec: "{:+(bg=blue,bold)x?}\r\n", n: 1, styl: |v, k| stylish::write!(K(k), "{:+(bg=blue,bold)x?}\r\n", v[0]), std: |v, o| core::write!(o, "{:+x?}\r\n", v[0]) },
    Site { spec: "{:+X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+X?}", v[0])), std: |v, o| core::write!(o, "{:+X?}", v[0]) },
    Site { spec: "{:+.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:+.0}", v[0])), std: |v, o| core::write!(o, "{:+.0}", v[0]) },
    Site { spec: "{:+.0(fg=red)o}", n: 1, styl: |v, k| k(stylish::format_args!("{:+.0(fg=red)o}", v[0])), std: |v, o| core::write!(o, "{:+.0o}", v[0]) },
    Site { spec: "{:+.0(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+.0(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:+.0?}", v[0]) },
    Site { spec: "{:+.0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+.0x?}", v[0])), std: |v, o| core::write!(o, "{:+.0x?}", v[0]) },
    Site { spec: "{:+.0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+.0X?}", v[0])), std: |v, o| core::write!(o, "{:+.0X?}", v[0]) },
    Site { spec: "{:+5}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:+5}", v[0]), std: |v, o| core::writeln!(o, "{:+5}", v[0]) },
    Site { spec: "{:+5o}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:+5o}", v[0]), std: |v, o| core::writeln!(o, "{:+5o}", v[0]) },
    Site { spec: "{:+5?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+5?}", v[0])), std: |v, o| core::write!(o, "{:+5?}", v[0]) },
    Site { spec: "{:+5(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+5(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:+5x?}", v[0]) },
    Site { spec: "{:+5X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:+", "5X?}"), v[0])), std: |v, o| core::write!(o, "{:+5X?}", v[0]) },
    Site { spec: "{:+2.70}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:+2.70}", v[0]), std: |v, o| core::writeln!(o, "{:+2.70}", v[0]) },
    Site { spec: "{:+2.70(fg=red)o}", n: 1, styl: |v, k| k(stylish::format_args!("{:+2.70(fg=red)o}", v[0])), std: |v, o| core::write!(o, "{:+2.70o}", v[0]) },
    Site { spec: "{:+2.70?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+2.70?}", v[0])), std: |v, o| core::write!(o, "{:+2.70?}", v[0]) },
    Site { spec: "{:+2.70(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+2.70(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:+2.70x?}", v[0]) },
    Site { spec: "{:+2.70X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+2.70X?}", v[0])), std: |v, o| core::write!(o, "{:+2.70X?}", v[0]) },
    Site { spec: "{:+0(fg=red)}{{", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:+0(fg=red)}{{", v[0]), std: |v, o| core::writeln!(o, "{:+0}{{", v[0]) },
    Site { spec: "{:+0X}", n: 1, styl: |v, k| k(stylish::format_args!("{:+0X}", v[0])), std: |v, o| core::write!(o, "{:+0X}", v[0]) },
    Site { spec: "{:+0(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+0(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:+0?}", v[0]) },
    Site { spec: "{:+0(bg=blue,bold)x?}\r", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:+0(bg=blue,bold)x?}\r", v[0]), std: |v, o| core::writeln!(o, "{:+0x?}\r", v[0]) },
    Site { spec: "{:+0(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+0(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:+0X?}", v[0]) },
    Site { spec: "{:+0.70(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:+0.70(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:+0.70}", v[0]) },
    Site { spec: "{:+0.70E}", n: 1, styl: |v, k| k(stylish::format_args!("{:+0.70E}", v[0])), std: |v, o| core::write!(o, "{:+0.70E}", v[0]) },
    Site { spec: "{:+0.70(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+0.70(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:+0.70?}", v[0]) },
    Site { spec: "{:+0.70(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+0.70(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:+0.70x?}", v[0]) },
    Site { spec: "{:+0.70X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+0.70X?}", v[0])), std: |v, o| core::write!(o, "{:+0.70X?}", v[0]) },
    Site { spec: "{:+020}", n: 1, styl: |v, k| k(stylish::format_args!("{:+020}", v[0])), std: |v, o| core::write!(o, "{:+020}", v[0]) },
    Site { spec: "{:+020(bg=blue,bold)b}", n: 1, styl: |v, k| k(stylish::format_args!("{:+020(bg=blue,bold)b}", v[0])), std: |v, o| core::write!(o, "{:+020b}", v[0]) },
    Site { spec: "{:+020(fg=red)?}\n", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:+020(fg=red)?}\n", v[0]), std: |v, o| core::writeln!(o, "{:+020?}\n", v[0]) },
    Site { spec: "{:+020(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+020(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:+020x?}", v[0]) },
    Site { spec: "{:+020X?} ", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:+020X?} ", v[0]), std: |v, o| core::writeln!(o, "{:+020X?} ", v[0]) },
    Site { spec: "{:+02.0(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:+02.0(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:+02.0}", v[0]) },
    Site { spec: "{:+02.0(bg=blue,bold)E}\t", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:+02.0(bg=blue,bold)E}\t", v[0]), std: |v, o| core::writeln!(o, "{:+02.0E}\t", v[0]) },
    Site { spec: "{:+02.0(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+02.0(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:+02.0?}", v[0]) },
    Site { spec: "{:+02.0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+02.0x?}", v[0])), std: |v, o| core::write!(o, "{:+02.0x?}", v[0]) },
    Site { spec: "{:+02.0(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+02.0(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:+02.0X?}", v[0]) },
    Site { spec: "{:+#}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#}", v[0])), std: |v, o| core::write!(o, "{:+#}", v[0]) },
    Site { spec: "{:+#x}}}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:+#x}}}", v[0]), std: |v, o| core::writeln!(o, "{:+#x}}}", v[0]) },
    Site { spec: "{:+#?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#?}", v[0])), std: |v, o| core::write!(o, "{:+#?}", v[0]) },
    Site { spec: "{:+#(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:+#x?}", v[0]) },
    Site { spec: "{:+#X?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:+#X?}", v[0]), std: |v, o| core::writeln!(o, "{:+#X?}", v[0]) },
    Site { spec: "{:+#.0(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#.0(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:+#.0}", v[0]) },
    Site { spec: "{:+#.0e}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#.0e}", v[0])), std: |v, o| core::write!(o, "{:+#.0e}", v[0]) },
    Site { spec: "{:+#.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#.0?}", v[0])), std: |v, o| core::write!(o, "{:+#.0?}", v[0]) },
    Site { spec: "{:+#.0(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#.0(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:+#.0x?}", v[0]) },
    Site { spec: "{:+#.0(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:+#.0(fg=red)X", "?}"), v[0])), std: |v, o| core::write!(o, "{:+#.0X?}", v[0]) },
    Site { spec: "{:+#2(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#2(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:+#2}", v[0]) },
    Site { spec: "{:+#2(fg=red)x}}}", n: 1, styl: |v, k| stylish::write!(K(k), "{:+#2(fg=red)x}}}", v[0]), std: |v, o| core::write!(o, "{:+#2x}}}", v[0]) },
    Site { spec: "{:+#2?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#2?}", v[0])), std: |v, o| core::write!(o, "{:+#2?}", v[0]) },
    Site { spec: "{:+#2(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#2(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:+#2x?}", v[0]) },
    Site { spec: "{:+#2X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#2X?}", v[0])), std: |v, o| core::write!(o, "{:+#2X?}", v[0]) },
    Site { spec: "{:+#5.9}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#5.9}", v[0])), std: |v, o| core::write!(o, "{:+#5.9}", v[0]) },
    Site { spec: "{:+#5.9o}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#5.9o}", v[0])), std: |v, o| core::write!(o, "{:+#5.9o}", v[0]) },
    Site { spec: "{:+#5.9(fg=red)?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:+#5.9(fg=red)?}", v[0]), std: |v, o| core::writeln!(o, "{:+#5.9?}", v[0]) },
    Site { spec: "{:+#5.9(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#5.9(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:+#5.9x?}", v[0]) },
    Site { spec: "{:+#5.9(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#5.9(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:+#5.9X?}", v[0]) },
    Site { spec: "{:+#0}\\", n: 1, styl: |v, k| stylish::write!(K(k), "{:+#0}\\", v[0]), std: |v, o| core::write!(o, "{:+#0}\\", v[0]) },
    Site { spec: "{:+#0X}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#0X}", v[0])), std: |v, o| core::write!(o, "{:+#0X}", v[0]) },
    Site { spec: "{:+#0?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#0?}", v[0])), std: |v, o| core::write!(o, "{:+#0?}", v[0]) },
    Site { spec: "{:+#0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#0x?}", v[0])), std: |v, o| core::write!(o, "{:+#0x?}", v[0]) },
    Site { spec: "{:+#0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#0X?}", v[0])), std: |v, o| core::write!(o, "{:+#0X?}", v[0]) },
    Site { spec: "{:+#0.9(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#0.9(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:+#0.9}", v[0]) },
    Site { spec: "{:+#0.9(fg=red)x}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#0.9(fg=red)x}", v[0])), std: |v, o| core::write!(o, "{:+#0.9x}", v[0]) },
    Site { spec: "{:+#0.9?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#0.9?}", v[0])), std: |v, o| core::write!(o, "{:+#0.9?}", v[0]) },
    Site { spec: "{:+#0.9(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#0.9(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:+#0.9x?}", v[0]) },
    Site { spec: "{:+#0.9X?}\0", n: 1, styl: |v, k| stylish::write!(K(k), "{:+#0.9X?}\0", v[0]), std: |v, o| core::write!(o, "{:+#0.9X?}\0", v[0]) },
    Site { spec: "{:+#07}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:+#07", "}"), v[0])), std: |v, o| core::write!(o, "{:+#07}", v[0]) },
    Site { spec: "{:+#07(fg=red)E}\\", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:+#07(fg=red)E}\\", v[0]), std: |v, o| core::writeln!(o, "{:+#07E}\\", v[0]) },
    Site { spec: "{:+#07?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#07?}", v[0])), std: |v, o| core::write!(o, "{:+#07?}", v[0]) },
    Site { spec: "{:+#07(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#07(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:+#07x?}", v[0]) },
    Site { spec: "{:+#07(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#07(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:+#07X?}", v[0]) },
    Site { spec: "{:+#012.2}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#012.2}", v[0])), std: |v, o| core::write!(o, "{:+#012.2}", v[0]) },
    Site { spec: "{:+#012.2b}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:+#01", "2.2b}"), v[0])), std: |v, o| core::write!(o, "{:+#012.2b}", v[0]) },
    Site { spec: "{:+#012.2(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#012.2(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:+#012.2?}", v[0]) },
    Site { spec: "{:+#012.2x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#012.2x?}", v[0])), std: |v, o| core::write!(o, "{:+#012.2x?}", v[0]) },
    Site { spec: "{:+#012.2X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:+#012.2X?}", v[0])), std: |v, o| core::write!(o, "{:+#012.2X?}", v[0]) },
    Site { spec: "{:-}", n: 1, styl: |v, k| k(stylish::format_args!("{:-}", v[0])), std: |v, o| core::write!(o, "{:-}", v[0]) },
    Site { spec: "{:-e}", n: 1, styl: |v, k| k(stylish::format_args!("{:-e}", v[0])), std: |v, o| core::write!(o, "{:-e}", v[0]) },
    Site { spec: "{:-?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-?}", v[0])), std: |v, o| core::write!(o, "{:-?}", v[0]) },
    Site { spec: "{:-(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:-x?}", v[0]) },
    Site { spec: "{:-X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-X?}", v[0])), std: |v, o| core::write!(o, "{:-X?}", v[0]) },
    Site { spec: "{:-.9(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:-.9(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:-.9}", v[0]) },
    Site { spec: "{:-.9(bg=blue,bold)b}", n: 1, styl: |v, k| k(stylish::format_args!("{:-.9(bg=blue,bold)b}", v[0])), std: |v, o| core::write!(o, "{:-.9b}", v[0]) },
    Site { spec: "{:-.9?}\t", n: 1, styl: |v, k| stylish::write!(K(k), "{:-.9?}\t", v[0]), std: |v, o| core::write!(o, "{:-.9?}\t", v[0]) },
    Site { spec: "{:-.9x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-.9x?}", v[0])), std: |v, o| core::write!(o, "{:-.9x?}", v[0]) },
    Site { spec: "{:-.9X?}\t", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:-.9X?}\t", v[0]), std: |v, o| core::writeln!(o, "{:-.9X?}\t", v[0]) },
    Site { spec: "{:-5}\n", n: 1, styl: |v, k| stylish::write!(K(k), "{:-5}\n", v[0]), std: |v, o| core::write!(o, "{:-5}\n", v[0]) },
    Site { spec: "{:-5X}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:-5", "X}"), v[0])), std: |v, o| core::write!(o, "{:-5X}", v[0]) },
    Site { spec: "{:-5(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-5(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:-5?}", v[0]) },
    Site { spec: "{:-5x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:-5x?", "}"), v[0])), std: |v, o| core::write!(o, "{:-5x?}", v[0]) },
    Site { spec: "{:-5X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-5X?}", v[0])), std: |v, o| core::write!(o, "{:-5X?}", v[0]) },
    Site { spec: "{:-300.4(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:-300.4(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:-300.4}", v[0]) },
    Site { spec: "{:-300.4b}", n: 1, styl: |v, k| k(stylish::format_args!("{:-300.4b}", v[0])), std: |v, o| core::write!(o, "{:-300.4b}", v[0]) },
    Site { spec: "{:-300.4?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-300.4?}", v[0])), std: |v, o| core::write!(o, "{:-300.4?}", v[0]) },
    Site { spec: "{:-300.4(fg=red)x?}\0", n: 1, styl: |v, k| stylish::write!(K(k), "{:-300.4(fg=red)x?}\0", v[0]), std: |v, o| core::write!(o, "{:-300.4x?}\0", v[0]) },
    Site { spec: "{:-300.4(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-300.4(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:-300.4X?}", v[0]) },
    Site { spec: "{:-0(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:-0(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:-0}", v[0]) },
    Site { spec: "{:-0X}", n: 1, styl: |v, k| k(stylish::format_args!("{:-0X}", v[0])), std: |v, o| core::write!(o, "{:-0X}", v[0]) },
    Site { spec: "{:-0?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-0?}", v[0])), std: |v, o| core::write!(o, "{:-0?}", v[0]) },
    Site { spec: "{:-0x?}", n: 1, styl: |v, k| stylish::write!(K(k), "{:-0x?}", v[0]), std: |v, o| core::write!(o, "{:-0x?}", v[0]) },
    Site { spec: "{:-0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-0X?}", v[0])), std: |v, o| core::write!(o, "{:-0X?}", v[0]) },
    Site { spec: "{:-0.20}", n: 1, styl: |v, k| k(stylish::format_args!("{:-0.20}", v[0])), std: |v, o| core::write!(o, "{:-0.20}", v[0]) },
    Site { spec: "{:-0.20o}", n: 1, styl: |v, k| k(stylish::format_args!("{:-0.20o}", v[0])), std: |v, o| core::write!(o, "{:-0.20o}", v[0]) },
    Site { spec: "{:-0.20?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-0.20?}", v[0])), std: |v, o| core::write!(o, "{:-0.20?}", v[0]) },
    Site { spec: "{:-0.20x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-0.20x?}", v[0])), std: |v, o| core::write!(o, "{:-0.20x?}", v[0]) },
    Site { spec: "{:-0.20X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-0.20X?}", v[0])), std: |v, o| core::write!(o, "{:-0.20X?}", v[0]) },
    Site { spec: "{:-020}", n: 1, styl: |v, k| k(stylish::format_args!("{:-020}", v[0])), std: |v, o| core::write!(o, "{:-020}", v[0]) },
    Site { spec: "{:-020(bg=blue,bold)b}", n: 1, styl: |v, k| k(stylish::format_args!("{:-020(bg=blue,bold)b}", v[0])), std: |v, o| core::write!(o, "{:-020b}", v[0]) },
    Site { spec: "{:-020?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-020?}", v[0])), std: |v, o| core::write!(o, "{:-020?}", v[0]) },
    Site { spec: "{:-020x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-020x?}", v[0])), std: |v, o| core::write!(o, "{:-020x?}", v[0]) },
    Site { spec: "{:-020X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-020X?}", v[0])), std: |v, o| core::write!(o, "{:-020X?}", v[0]) },
    Site { spec: "{:-05.70(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:-05.70(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:-05.70}", v[0]) },
    Site { spec: "{:-05.70E}", n: 1, styl: |v, k| k(stylish::format_args!("{:-05.70E}", v[0])), std: |v, o| core::write!(o, "{:-05.70E}", v[0]) },
    Site { spec: "{:-05.70?}{{", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:-05.70?}{{", v[0]), std: |v, o| core::writeln!(o, "{:-05.70?}{{", v[0]) },
    Site { spec: "{:-05.70x?}\r\n", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:-05.70x?}\r\n", v[0]), std: |v, o| core::writeln!(o, "{:-05.70x?}\r\n", v[0]) },
    Site { spec: "{:-05.70X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-05.70X?}", v[0])), std: |v, o| core::write!(o, "{:-05.70X?}", v[0]) },
    Site { spec: "{:-#(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:-#(bg=blue,b", "old)}"), v[0])), std: |v, o| core::write!(o, "{:-#}", v[0]) },
    Site { spec: "{:-#E}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#E}", v[0])), std: |v, o| core::write!(o, "{:-#E}", v[0]) },
    Site { spec: "{:-#?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#?}", v[0])), std: |v, o| core::write!(o, "{:-#?}", v[0]) },
    Site { spec: "{:-#x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#x?}", v[0])), std: |v, o| core::write!(o, "{:-#x?}", v[0]) },
    Site { spec: "{:-#X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#X?}", v[0])), std: |v, o| core::write!(o, "{:-#X?}", v[0]) },
    Site { spec: "{:-#.4}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#.4}", v[0])), std: |v, o| core::write!(o, "{:-#.4}", v[0]) },
    Site { spec: "{:-#.4b}{{", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:-#.4b}{{", v[0]), std: |v, o| core::writeln!(o, "{:-#.4b}{{", v[0]) },
    Site { spec: "{:-#.4(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#.4(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:-#.4?}", v[0]) },
    Site { spec: "{:-#.4x?}\0", n: 1, styl: |v, k| stylish::write!(K(k), "{:-#.4x?}\0", v[0]), std: |v, o| core::write!(o, "{:-#.4x?}\0", v[0]) },
    Site { spec: "{:-#.4(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#.4(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:-#.4X?}", v[0]) },
    Site { spec: "{:-#300}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#300}", v[0])), std: |v, o| core::write!(o, "{:-#300}", v[0]) },
    Site { spec: "{:-#300(bg=blue,bold)b} ", n: 1, styl: |v, k| stylish::write!(K(k), "{:-#300(bg=blue,bold)b} ", v[0]), std: |v, o| core::write!(o, "{:-#300b} ", v[0]) },
    Site { spec: "{:-#300?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#300?}", v[0])), std: |v, o| core::write!(o, "{:-#300?}", v[0]) },
    Site { spec: "{:-#300x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#300x?}", v[0])), std: |v, o| core::write!(o, "{:-#300x?}", v[0]) },
    Site { spec: "{:-#300X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#300X?}", v[0])), std: |v, o| core::write!(o, "{:-#300X?}", v[0]) },
    Site { spec: "{:-#1.20}", n: 1, styl: |v, k| stylish::write!(K(k), "{:-#1.20}", v[0]), std: |v, o| core::write!(o, "{:-#1.20}", v[0]) },
    Site { spec: "{:-#1.20o}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#1.20o}", v[0])), std: |v, o| core::write!(o, "{:-#1.20o}", v[0]) },
    Site { spec: "{:-#1.20?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#1.20?}", v[0])), std: |v, o| core::write!(o, "{:-#1.20?}", v[0]) },
    Site { spec: "{:-#1.20x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:-#1.", "20x?}"), v[0])), std: |v, o| core::write!(o, "{:-#1.20x?}", v[0]) },
    Site { spec: "{:-#1.20X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#1.20X?}", v[0])), std: |v, o| core::write!(o, "{:-#1.20X?}", v[0]) },
    Site { spec: "{:-#0(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#0(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:-#0}", v[0]) },
    Site { spec: "{:-#0(fg=red)E}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#0(fg=red)E}", v[0])), std: |v, o| core::write!(o, "{:-#0E}", v[0]) },
    Site { spec: "{:-#0?}\n", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:-#0?}\n", v[0]), std: |v, o| core::writeln!(o, "{:-#0?}\n", v[0]) },
    Site { spec: "{:-#0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#0x?}", v[0])), std: |v, o| core::write!(o, "{:-#0x?}", v[0]) },
    Site { spec: "{:-#0(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#0(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:-#0X?}", v[0]) },
    Site { spec: "{:-#0.4}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#0.4}", v[0])), std: |v, o| core::write!(o, "{:-#0.4}", v[0]) },
    Site { spec: "{:-#0.4E}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:-#0.4E", "}"), v[0])), std: |v, o| core::write!(o, "{:-#0.4E}", v[0]) },
    Site { spec: "{:-#0.4?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#0.4?}", v[0])), std: |v, o| core::write!(o, "{:-#0.4?}", v[0]) },
    Site { spec: "{:-#0.4(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#0.4(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:-#0.4x?}", v[0]) },
    Site { spec: "{:-#0.4X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#0.4X?}", v[0])), std: |v, o| core::write!(o, "{:-#0.4X?}", v[0]) },
    Site { spec: "{:-#00(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:-#00(f", "g=red)}"), v[0])), std: |v, o| core::write!(o, "{:-#00}", v[0]) },
    Site { spec: "{:-#00X}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#00X}", v[0])), std: |v, o| core::write!(o, "{:-#00X}", v[0]) },
    Site { spec: "{:-#00(fg=red)?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:-#00(fg=red)?}", v[0]), std: |v, o| core::writeln!(o, "{:-#00?}", v[0]) },
    Site { spec: "{:-#00x?}{{", n: 1, styl: |v, k| stylish::write!(K(k), "{:-#00x?}{{", v[0]), std: |v, o| core::write!(o, "{:-#00x?}{{", v[0]) },
    Site { spec: "{:-#00X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#00X?}", v[0])), std: |v, o| core::write!(o, "{:-#00X?}", v[0]) },
    Site { spec: "{:-#00.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#00.0}", v[0])), std: |v, o| core::write!(o, "{:-#00.0}", v[0]) },
    Site { spec: "{:-#00.0(bg=blue,bold)e}\r", n: 1, styl: |v, k| stylish::write!(K(k), "{:-#00.0(bg=blue,bold)e}\r", v[0]), std: |v, o| core::write!(o, "{:-#00.0e}\r", v[0]) },
    Site { spec: "{:-#00.0(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#00.0(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:-#00.0?}", v[0]) },
    Site { spec: "{:-#00.0(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#00.0(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:-#00.0x?}", v[0]) },
    Site { spec: "{:-#00.0(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:-#00.0(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:-#00.0X?}", v[0]) },
    Site { spec: "{:<}", n: 1, styl: |v, k| k(stylish::format_args!("{:<}", v[0])), std: |v, o| core::write!(o, "{:<}", v[0]) },
    Site { spec: "{:<(fg=red)b}", n: 1, styl: |v, k| k(stylish::format_args!("{:<(fg=red)b}", v[0])), std: |v, o| core::write!(o, "{:<b}", v[0]) },
    Site { spec: "{:<?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<?}", v[0])), std: |v, o| core::write!(o, "{:<?}", v[0]) },
    Site { spec: "{:<x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<x?}", v[0])), std: |v, o| core::write!(o, "{:<x?}", v[0]) },
    Site { spec: "{:<X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<X?}", v[0])), std: |v, o| core::write!(o, "{:<X?}", v[0]) },
    Site { spec: "{:<.70(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:<.70(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:<.70}", v[0]) },
    Site { spec: "{:<.70b}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<.70b}", v[0]), std: |v, o| core::writeln!(o, "{:<.70b}", v[0]) },
    Site { spec: "{:<.70(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<.70(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:<.70?}", v[0]) },
    Site { spec: "{:<.70x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<.70x?}", v[0])), std: |v, o| core::write!(o, "{:<.70x?}", v[0]) },
    Site { spec: "{:<.70X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<.70X?}", v[0])), std: |v, o| core::write!(o, "{:<.70X?}", v[0]) },
    Site { spec: "{:<12}", n: 1, styl: |v, k| k(stylish::format_args!("{:<12}", v[0])), std: |v, o| core::write!(o, "{:<12}", v[0]) },
    Site { spec: "{:<12b}", n: 1, styl: |v, k| k(stylish::format_args!("{:<12b}", v[0])), std: |v, o| core::write!(o, "{:<12b}", v[0]) },
    Site { spec: "{:<12?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<12?}", v[0])), std: |v, o| core::write!(o, "{:<12?}", v[0]) },
    Site { spec: "{:<12(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<12(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:<12x?}", v[0]) },
    Site { spec: "{:<12(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<12(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:<12X?}", v[0]) },
    Site { spec: "{: <7.0}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: <", "7.0}"), v[0])), std: |v, o| core::write!(o, "{: <7.0}", v[0]) },
    Site { spec: "{: <7.0o}", n: 1, styl: |v, k| k(stylish::format_args!("{: <7.0o}", v[0])), std: |v, o| core::write!(o, "{: <7.0o}", v[0]) },
    Site { spec: "{: <7.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <7.0?}", v[0])), std: |v, o| core::write!(o, "{: <7.0?}", v[0]) },
    Site { spec: "{: <7.0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <7.0x?}", v[0])), std: |v, o| core::write!(o, "{: <7.0x?}", v[0]) },
    Site { spec: "{: <7.0(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <7.0(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{: <7.0X?}", v[0]) },
    Site { spec: "{: <0}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{", ": <0}"), v[0])), std: |v, o| core::write!(o, "{: <0}", v[0]) },
    Site { spec: "{: <0E}", n: 1, styl: |v, k| k(stylish::format_args!("{: <0E}", v[0])), std: |v, o| core::write!(o, "{: <0E}", v[0]) },
    Site { spec: "{: <0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <0?}", v[0])), std: |v, o| core::write!(o, "{: <0?}", v[0]) },
    Site { spec: "{: <0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <0x?}", v[0])), std: |v, o| core::write!(o, "{: <0x?}", v[0]) },
    Site { spec: "{: <0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <0X?}", v[0])), std: |v, o| core::write!(o, "{: <0X?}", v[0]) },
    Site { spec: "{: <0.4(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{: <0.4(fg=red)}", v[0])), std: |v, o| core::write!(o, "{: <0.4}", v[0]) },
    Site { spec: "{: <0.4p}", n: 1, styl: |v, k| stylish::write!(K(k), "{: <0.4p}", v[0]), std: |v, o| core::write!(o, "{: <0.4p}", v[0]) },
    Site { spec: "{: <0.4(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <0.4(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: <0.4?}", v[0]) },
    Site { spec: "{: <0.4(bg=blue,bold)x?} ", n: 1, styl: |v, k| stylish::write!(K(k), "{: <0.4(bg=blue,bold)x?} ", v[0]), std: |v, o| core::write!(o, "{: <0.4x?} ", v[0]) },
    Site { spec: "{: <0.4X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <0.4X?}", v[0])), std: |v, o| core::write!(o, "{: <0.4X?}", v[0]) },
    Site { spec: "{:<05}", n: 1, styl: |v, k| k(stylish::format_args!("{:<05}", v[0])), std: |v, o| core::write!(o, "{:<05}", v[0]) },
    Site { spec: "{:<05(bg=blue,bold)e}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:<0", "5(bg=blue,bold)e}"), v[0])), std: |v, o| core::write!(o, "{:<05e}", v[0]) },
    Site { spec: "{:<05?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<05?}", v[0]), std: |v, o| core::writeln!(o, "{:<05?}", v[0]) },
    Site { spec: "{:<05(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<05(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:<05x?}", v[0]) },
    Site { spec: "{:<05X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<05X?}", v[0])), std: |v, o| core::write!(o, "{:<05X?}", v[0]) },
    Site { spec: "{:<00.2}", n: 1, styl: |v, k| k(stylish::format_args!("{:<00.2}", v[0])), std: |v, o| core::write!(o, "{:<00.2}", v[0]) },
    Site { spec: "{:<00.2(bg=blue,bold)p}", n: 1, styl: |v, k| k(stylish::format_args!("{:<00.2(bg=blue,bold)p}", v[0])), std: |v, o| core::write!(o, "{:<00.2p}", v[0]) },
    Site { spec: "{:<00.2?}\t", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<00.2?}\t", v[0]), std: |v, o| core::writeln!(o, "{:<00.2?}\t", v[0]) },
    Site { spec: "{:<00.2(fg=red)x?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<00.2(fg=red)x?}", v[0]), std: |v, o| core::writeln!(o, "{:<00.2x?}", v[0]) },
    Site { spec: "{:<00.2X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<00.2X?}", v[0])), std: |v, o| core::write!(o, "{:<00.2X?}", v[0]) },
    Site { spec: "{: <#(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#(fg=red)}", v[0])), std: |v, o| core::write!(o, "{: <#}", v[0]) },
    Site { spec: "{: <#E}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#E}", v[0])), std: |v, o| core::write!(o, "{: <#E}", v[0]) },
    Site { spec: "{: <#?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#?}", v[0])), std: |v, o| core::write!(o, "{: <#?}", v[0]) },
    Site { spec: "{: <#x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#x?}", v[0])), std: |v, o| core::write!(o, "{: <#x?}", v[0]) },
    Site { spec: "{: <#X?}", n: 1, styl: |v, k| stylish::write!(K(k), "{: <#X?}", v[0]), std: |v, o| core::write!(o, "{: <#X?}", v[0]) },
    Site { spec: "{:<#.2}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#.2}", v[0])), std: |v, o| core::write!(o, "{:<#.2}", v[0]) },
    Site { spec: "{:<#.2(fg=red)b}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#.2(fg=red)b}", v[0])), std: |v, o| core::write!(o, "{:<#.2b}", v[0]) },
    Site { spec: "{:<#.2(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#.2(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:<#.2?}", v[0]) },
    Site { spec: "{:<#.2x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#.2x?}", v[0])), std: |v, o| core::write!(o, "{:<#.2x?}", v[0]) },
    Site { spec: "{:<#.2X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#.2X?}", v[0])), std: |v, o| core::write!(o, "{:<#.2X?}", v[0]) },
    Site { spec: "{:<#20(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#20(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:<#20}", v[0]) },
    Site { spec: "{:<#20(fg=red)p}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#20(fg=red)p}", v[0])), std: |v, o| core::write!(o, "{:<#20p}", v[0]) },
    Site { spec: "{:<#20?}\t", n: 1, styl: |v, k| stylish::write!(K(k), "{:<#20?}\t", v[0]), std: |v, o| core::write!(o, "{:<#20?}\t", v[0]) },
    Site { spec: "{:<#20x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#20x?}", v[0])), std: |v, o| core::write!(o, "{:<#20x?}", v[0]) },
    Site { spec: "{:<#20(bg=blue,bold)X?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<#20(bg=blue,bold)X?}", v[0]), std: |v, o| core::writeln!(o, "{:<#20X?}", v[0]) },
    Site { spec: "{: <#300.70}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#300.70}", v[0])), std: |v, o| core::write!(o, "{: <#300.70}", v[0]) },
    Site { spec: "{: <#300.70E}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#300.70E}", v[0])), std: |v, o| core::write!(o, "{: <#300.70E}", v[0]) },
    Site { spec: "{: <#300.70(fg=red)?}\t", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: <#300.70(fg=red)?}\t", v[0]), std: |v, o| core::writeln!(o, "{: <#300.70?}\t", v[0]) },
    Site { spec: "{: <#300.70x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#300.70x?}", v[0])), std: |v, o| core::write!(o, "{: <#300.70x?}", v[0]) },
    Site { spec: "{: <#300.70(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#300.70(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{: <#300.70X?}", v[0]) },
    Site { spec: "{:<#0(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#0(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:<#0}", v[0]) },
    Site { spec: "{:<#0b}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#0b}", v[0])), std: |v, o| core::write!(o, "{:<#0b}", v[0]) },
    Site { spec: "{:<#0?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#0?}", v[0])), std: |v, o| core::write!(o, "{:<#0?}", v[0]) },
    Site { spec: "{:<#0(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:<#0(bg=blue", ",bold)x?}"), v[0])), std: |v, o| core::write!(o, "{:<#0x?}", v[0]) },
    Site { spec: "{:<#0(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#0(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:<#0X?}", v[0]) },
    Site { spec: "{: <#0.0(fg=red)}\t", n: 1, styl: |v, k| stylish::write!(K(k), "{: <#0.0(fg=red)}\t", v[0]), std: |v, o| core::write!(o, "{: <#0.0}\t", v[0]) },
    Site { spec: "{: <#0.0p}\t", n: 1, styl: |v, k| stylish::write!(K(k), "{: <#0.0p}\t", v[0]), std: |v, o| core::write!(o, "{: <#0.0p}\t", v[0]) },
    Site { spec: "{: <#0.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#0.0?}", v[0])), std: |v, o| core::write!(o, "{: <#0.0?}", v[0]) },
    Site { spec: "{: <#0.0(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#0.0(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: <#0.0x?}", v[0]) },
    Site { spec: "{: <#0.0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#0.0X?}", v[0])), std: |v, o| core::write!(o, "{: <#0.0X?}", v[0]) },
    Site { spec: "{:<#066}}}", n: 1, styl: |v, k| stylish::write!(K(k), "{:<#066}}}", v[0]), std: |v, o| core::write!(o, "{:<#066}}}", v[0]) },
    Site { spec: "{:<#066x}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:<#066x", "}"), v[0])), std: |v, o| core::write!(o, "{:<#066x}", v[0]) },
    Site { spec: "{:<#066(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#066(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:<#066?}", v[0]) },
    Site { spec: "{:<#066x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#066x?}", v[0])), std: |v, o| core::write!(o, "{:<#066x?}", v[0]) },
    Site { spec: "{:<#066X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<#066X?}", v[0])), std: |v, o| core::write!(o, "{:<#066X?}", v[0]) },
    Site { spec: "{: <#01.4(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#01.4(fg=red)}", v[0])), std: |v, o| core::write!(o, "{: <#01.4}", v[0]) },
    Site { spec: "{: <#01.4X}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#01.4X}", v[0])), std: |v, o| core::write!(o, "{: <#01.4X}", v[0]) },
    Site { spec: "{: <#01.4?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <#01.4?}", v[0])), std: |v, o| core::write!(o, "{: <#01.4?}", v[0]) },
    Site { spec: "{: <#01.4x?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: <#01.4x?}", v[0]), std: |v, o| core::writeln!(o, "{: <#01.4x?}", v[0]) },
    Site { spec: "{: <#01.4(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: <#01.4(", "fg=red)X?}"), v[0])), std: |v, o| core::write!(o, "{: <#01.4X?}", v[0]) },
    Site { spec: "{: <+}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+}", v[0])), std: |v, o| core::write!(o, "{: <+}", v[0]) },
    Site { spec: "{: <+X}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+X}", v[0])), std: |v, o| core::write!(o, "{: <+X}", v[0]) },
    Site { spec: "{: <+?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+?}", v[0])), std: |v, o| core::write!(o, "{: <+?}", v[0]) },
    Site { spec: "{: <+(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: <+(fg", "=red)x?}"), v[0])), std: |v, o| core::write!(o, "{: <+x?}", v[0]) },
    Site { spec: "{: <+X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+X?}", v[0])), std: |v, o| core::write!(o, "{: <+X?}", v[0]) },
    Site { spec: "{:<+.0(fg=red)}", n: 1, styl: |v, k| stylish::write!(K(k), "{:<+.0(fg=red)}", v[0]), std: |v, o| core::write!(o, "{:<+.0}", v[0]) },
    Site { spec: "{:<+.0(bg=blue,bold)e}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+.0(bg=blue,bold)e}", v[0])), std: |v, o| core::write!(o, "{:<+.0e}", v[0]) },
    Site { spec: "{:<+.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+.0?}", v[0])), std: |v, o| core::write!(o, "{:<+.0?}", v[0]) },
    Site { spec: "{:<+.0(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{", ":<+.0(fg=red)x?}"), v[0])), std: |v, o| core::write!(o, "{:<+.0x?}", v[0]) },
    Site { spec: "{:<+.0(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:<+.0(b", "g=blue,bold)X?}"), v[0])), std: |v, o| core::write!(o, "{:<+.0X?}", v[0]) },
    Site { spec: "{: <+12}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+12}", v[0])), std: |v, o| core::write!(o, "{: <+12}", v[0]) },
    Site { spec: "{: <+12b}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+12b}", v[0])), std: |v, o| core::write!(o, "{: <+12b}", v[0]) },
    Site { spec: "{: <+12(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: <+12(bg=blu", "e,bold)?}"), v[0])), std: |v, o| core::write!(o, "{: <+12?}", v[0]) },
    Site { spec: "{: <+12x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+12x?}", v[0])), std: |v, o| core::write!(o, "{: <+12x?}", v[0]) },
    Site { spec: "{: <+12X?}}}", n: 1, styl: |v, k| stylish::write!(K(k), "{: <+12X?}}}", v[0]), std: |v, o| core::write!(o, "{: <+12X?}}}", v[0]) },
    Site { spec: "{:<+66.9(bg=blue,bold)}\r", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<+66.9(bg=blue,bold)}\r", v[0]), std: |v, o| core::writeln!(o, "{:<+66.9}\r", v[0]) },
    Site { spec: "{:<+66.9e}\r\n", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<+66.9e}\r\n", v[0]), std: |v, o| core::writeln!(o, "{:<+66.9e}\r\n", v[0]) },
    Site { spec: "{:<+66.9(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+66.9(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:<+66.9?}", v[0]) },
    Site { spec: "{:<+66.9x?}\r\n", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<+66.9x?}\r\n", v[0]), std: |v, o| core::writeln!(o, "{:<+66.9x?}\r\n", v[0]) },
    Site { spec: "{:<+66.9(bg=blue,bold)X?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<+66.9(bg=blue,bold)X?}", v[0]), std: |v, o| core::writeln!(o, "{:<+66.9X?}", v[0]) },
    Site { spec: "{: <+0(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+0(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{: <+0}", v[0]) },
    Site { spec: "{: <+0(bg=blue,bold)x}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: <+0(bg=", "blue,bold)x}"), v[0])), std: |v, o| core::write!(o, "{: <+0x}", v[0]) },
    Site { spec: "{: <+0(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+0(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: <+0?}", v[0]) },
    Site { spec: "{: <+0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+0x?}", v[0])), std: |v, o| core::write!(o, "{: <+0x?}", v[0]) },
    Site { spec: "{: <+0(bg=blue,bold)X?}\t", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: <+0(bg=blue,bold)X?}\t", v[0]), std: |v, o| core::writeln!(o, "{: <+0X?}\t", v[0]) },
    Site { spec: "{: <+0.0}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+0.0}", v[0])), std: |v, o| core::write!(o, "{: <+0.0}", v[0]) },
    Site { spec: "{: <+0.0(bg=blue,bold)b}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+0.0(bg=blue,bold)b}", v[0])), std: |v, o| core::write!(o, "{: <+0.0b}", v[0]) },
    Site { spec: "{: <+0.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+0.0?}", v[0])), std: |v, o| core::write!(o, "{: <+0.0?}", v[0]) },
    Site { spec: "{: <+0.0(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+0.0(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: <+0.0x?}", v[0]) },
    Site { spec: "{: <+0.0(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+0.0(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: <+0.0X?}", v[0]) },
    Site { spec: "{:<+02}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+02}", v[0])), std: |v, o| core::write!(o, "{:<+02}", v[0]) },
    Site { spec: "{:<+02E}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+02E}", v[0])), std: |v, o| core::write!(o, "{:<+02E}", v[0]) },
    Site { spec: "{:<+02?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+02?}", v[0])), std: |v, o| core::write!(o, "{:<+02?}", v[0]) },
    Site { spec: "{:<+02(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+02(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:<+02x?}", v[0]) },
    Site { spec: "{:<+02X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+02X?}", v[0])), std: |v, o| core::write!(o, "{:<+02X?}", v[0]) },
    Site { spec: "{:<+00.20}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+00.20}", v[0])), std: |v, o| core::write!(o, "{:<+00.20}", v[0]) },
    Site { spec: "{:<+00.20E}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+00.20E}", v[0])), std: |v, o| core::write!(o, "{:<+00.20E}", v[0]) },
    Site { spec: "{:<+00.20?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<+00.20?}", v[0]), std: |v, o| core::writeln!(o, "{:<+00.20?}", v[0]) },
    Site { spec: "{:<+00.20x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+00.20x?}", v[0])), std: |v, o| core::write!(o, "{:<+00.20x?}", v[0]) },
    Site { spec: "{:<+00.20X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+00.20X?}", v[0])), std: |v, o| core::write!(o, "{:<+00.20X?}", v[0]) },
    Site { spec: "{: <+#}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#}", v[0])), std: |v, o| core::write!(o, "{: <+#}", v[0]) },
    Site { spec: "{: <+#b}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#b}", v[0])), std: |v, o| core::write!(o, "{: <+#b}", v[0]) },
    Site { spec: "{: <+#?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#?}", v[0])), std: |v, o| core::write!(o, "{: <+#?}", v[0]) },
    Site { spec: "{: <+#(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{: <+#x?}", v[0]) },
    Site { spec: "{: <+#X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#X?}", v[0])), std: |v, o| core::write!(o, "{: <+#X?}", v[0]) },
    Site { spec: "{:<+#.4}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#.4}", v[0])), std: |v, o| core::write!(o, "{:<+#.4}", v[0]) },
    Site { spec: "{:<+#.4(bg=blue,bold)b}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#.4(bg=blue,bold)b}", v[0])), std: |v, o| core::write!(o, "{:<+#.4b}", v[0]) },
    Site { spec: "{:<+#.4?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#.4?}", v[0])), std: |v, o| core::write!(o, "{:<+#.4?}", v[0]) },
    Site { spec: "{:<+#.4(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#.4(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:<+#.4x?}", v[0]) },
    Site { spec: "{:<+#.4X?}", n: 1, styl: |v, k| stylish::write!(K(k), "{:<+#.4X?}", v[0]), std: |v, o| core::write!(o, "{:<+#.4X?}", v[0]) },
    Site { spec: "{:<+#0}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#0}", v[0])), std: |v, o| core::write!(o, "{:<+#0}", v[0]) },
    Site { spec: "{:<+#0(bg=blue,bold)p}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#0(bg=blue,bold)p}", v[0])), std: |v, o| core::write!(o, "{:<+#0p}", v[0]) },
    Site { spec: "{:<+#0(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:<+#0(bg=b", "lue,bold)?}"), v[0])), std: |v, o| core::write!(o, "{:<+#0?}", v[0]) },
    Site { spec: "{:<+#0(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#0(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:<+#0x?}", v[0]) },
    Site { spec: "{:<+#0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#0X?}", v[0])), std: |v, o| core::write!(o, "{:<+#0X?}", v[0]) },
    Site { spec: "{:<+#0.70}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#0.70}", v[0])), std: |v, o| core::write!(o, "{:<+#0.70}", v[0]) },
    Site { spec: "{:<+#0.70x}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<+#0.70x}", v[0]), std: |v, o| core::writeln!(o, "{:<+#0.70x}", v[0]) },
    Site { spec: "{:<+#0.70?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#0.70?}", v[0])), std: |v, o| core::write!(o, "{:<+#0.70?}", v[0]) },
    Site { spec: "{:<+#0.70x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#0.70x?}", v[0])), std: |v, o| core::write!(o, "{:<+#0.70x?}", v[0]) },
    Site { spec: "{:<+#0.70X?}", n: 1, styl: |v, k| stylish::write!(K(k), "{:<+#0.70X?}", v[0]), std: |v, o| core::write!(o, "{:<+#0.70X?}", v[0]) },
    Site { spec: "{:<+#0(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#0(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:<+#0}", v[0]) },
    Site { spec: "{:<+#0e}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#0e}", v[0])), std: |v, o| core::write!(o, "{:<+#0e}", v[0]) },
    Site { spec: "{:<+#0(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#0(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:<+#0?}", v[0]) },
    Site { spec: "{:<+#0(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#0(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:<+#0x?}", v[0]) },
    Site { spec: "{:<+#0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#0X?}", v[0])), std: |v, o| core::write!(o, "{:<+#0X?}", v[0]) },
    Site { spec: "{: <+#0.20(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#0.20(fg=red)}", v[0])), std: |v, o| core::write!(o, "{: <+#0.20}", v[0]) },
    Site { spec: "{: <+#0.20(fg=red)b}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#0.20(fg=red)b}", v[0])), std: |v, o| core::write!(o, "{: <+#0.20b}", v[0]) },
    Site { spec: "{: <+#0.20?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#0.20?}", v[0])), std: |v, o| core::write!(o, "{: <+#0.20?}", v[0]) },
    Site { spec: "{: <+#0.20(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#0.20(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: <+#0.20x?}", v[0]) },
    Site { spec: "{: <+#0.20X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#0.20X?}", v[0])), std: |v, o| core::write!(o, "{: <+#0.20X?}", v[0]) },
    Site { spec: "{:<+#02}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#02}", v[0])), std: |v, o| core::write!(o, "{:<+#02}", v[0]) },
    Site { spec: "{:<+#02(bg=blue,bold)e}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#02(bg=blue,bold)e}", v[0])), std: |v, o| core::write!(o, "{:<+#02e}", v[0]) },
    Site { spec: "{:<+#02?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:<+#02?}", ""), v[0])), std: |v, o| core::write!(o, "{:<+#02?}", v[0]) },
    Site { spec: "{:<+#02(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#02(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:<+#02x?}", v[0]) },
    Site { spec: "{:<+#02X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+#02X?}", v[0])), std: |v, o| core::write!(o, "{:<+#02X?}", v[0]) },
    Site { spec: "{: <+#01.1}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#01.1}", v[0])), std: |v, o| core::write!(o, "{: <+#01.1}", v[0]) },
    Site { spec: "{: <+#01.1x}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#01.1x}", v[0])), std: |v, o| core::write!(o, "{: <+#01.1x}", v[0]) },
    Site { spec: "{: <+#01.1(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#01.1(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: <+#01.1?}", v[0]) },
    Site { spec: "{: <+#01.1x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#01.1x?}", v[0])), std: |v, o| core::write!(o, "{: <+#01.1x?}", v[0]) },
    Site { spec: "{: <+#01.1(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <+#01.1(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{: <+#01.1X?}", v[0]) },
    Site { spec: "{:<-}\t", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<-}\t", v[0]), std: |v, o| core::writeln!(o, "{:<-}\t", v[0]) },
    Site { spec: "{:<-(fg=red)p}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-(fg=red)p}", v[0])), std: |v, o| core::write!(o, "{:<-p}", v[0]) },
    Site { spec: "{:<-?}\r\n", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<-?}\r\n", v[0]), std: |v, o| core::writeln!(o, "{:<-?}\r\n", v[0]) },
    Site { spec: "{:<-x?}{{", n: 1, styl: |v, k| stylish::write!(K(k), "{:<-x?}{{", v[0]), std: |v, o| core::write!(o, "{:<-x?}{{", v[0]) },
    Site { spec: "{:<-(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:<-X?}", v[0]) },
    Site { spec: "{:<-.20(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-.20(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:<-.20}", v[0]) },
    Site { spec: "{:<-.20(bg=blue,bold)X}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-.20(bg=blue,bold)X}", v[0])), std: |v, o| core::write!(o, "{:<-.20X}", v[0]) },
    Site { spec: "{:<-.20?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-.20?}", v[0])), std: |v, o| core::write!(o, "{:<-.20?}", v[0]) },
    Site { spec: "{:<-.20x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-.20x?}", v[0])), std: |v, o| core::write!(o, "{:<-.20x?}", v[0]) },
    Site { spec: "{:<-.20(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-.20(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:<-.20X?}", v[0]) },
    Site { spec: "{: <-300}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-300}", v[0])), std: |v, o| core::write!(o, "{: <-300}", v[0]) },
    Site { spec: "{: <-300E}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: <", "-300E}"), v[0])), std: |v, o| core::write!(o, "{: <-300E}", v[0]) },
    Site { spec: "{: <-300?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-300?}", v[0])), std: |v, o| core::write!(o, "{: <-300?}", v[0]) },
    Site { spec: "{: <-300(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-300(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: <-300x?}", v[0]) },
    Site { spec: "{: <-300X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-300X?}", v[0])), std: |v, o| core::write!(o, "{: <-300X?}", v[0]) },
    Site { spec: "{: <-1.70}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-1.70}", v[0])), std: |v, o| core::write!(o, "{: <-1.70}", v[0]) },
    Site { spec: "{: <-1.70b}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: <", "-1.70b}"), v[0])), std: |v, o| core::write!(o, "{: <-1.70b}", v[0]) },
    Site { spec: "{: <-1.70(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-1.70(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: <-1.70?}", v[0]) },
    Site { spec: "{: <-1.70(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-1.70(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: <-1.70x?}", v[0]) },
    Site { spec: "{: <-1.70X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-1.70X?}", v[0])), std: |v, o| core::write!(o, "{: <-1.70X?}", v[0]) },
    Site { spec: "{:<-0}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-0}", v[0])), std: |v, o| core::write!(o, "{:<-0}", v[0]) },
    Site { spec: "{:<-0o}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-0o}", v[0])), std: |v, o| core::write!(o, "{:<-0o}", v[0]) },
    Site { spec: "{:<-0(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-0(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:<-0?}", v[0]) },
    Site { spec: "{:<-0x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{:<-0x?}"), v[0])), std: |v, o| core::write!(o, "{:<-0x?}", v[0]) },
    Site { spec: "{:<-0X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:", "<-0X?}"), v[0])), std: |v, o| core::write!(o, "{:<-0X?}", v[0]) },
    Site { spec: "{: <-0.70}\r\n", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: <-0.70}\r\n", v[0]), std: |v, o| core::writeln!(o, "{: <-0.70}\r\n", v[0]) },
    Site { spec: "{: <-0.70E}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-0.70E}", v[0])), std: |v, o| core::write!(o, "{: <-0.70E}", v[0]) },
    Site { spec: "{: <-0.70?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-0.70?}", v[0])), std: |v, o| core::write!(o, "{: <-0.70?}", v[0]) },
    Site { spec: "{: <-0.70(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-0.70(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{: <-0.70x?}", v[0]) },
    Site { spec: "{: <-0.70X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-0.70X?}", v[0])), std: |v, o| core::write!(o, "{: <-0.70X?}", v[0]) },
    Site { spec: "{: <-020}\0", n: 1, styl: |v, k| stylish::write!(K(k), "{: <-020}\0", v[0]), std: |v, o| core::write!(o, "{: <-020}\0", v[0]) },
    Site { spec: "{: <-020(bg=blue,bold)x}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-020(bg=blue,bold)x}", v[0])), std: |v, o| core::write!(o, "{: <-020x}", v[0]) },
    Site { spec: "{: <-020(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-020(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{: <-020?}", v[0]) },
    Site { spec: "{: <-020x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-020x?}", v[0])), std: |v, o| core::write!(o, "{: <-020x?}", v[0]) },
    Site { spec: "{: <-020X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-020X?}", v[0])), std: |v, o| core::write!(o, "{: <-020X?}", v[0]) },
    Site { spec: "{: <-02.4}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-02.4}", v[0])), std: |v, o| core::write!(o, "{: <-02.4}", v[0]) },
    Site { spec: "{: <-02.4x}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-02.4x}", v[0])), std: |v, o| core::write!(o, "{: <-02.4x}", v[0]) },
    Site { spec: "{: <-02.4?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-02.4?}", v[0])), std: |v, o| core::write!(o, "{: <-02.4?}", v[0]) },
    Site { spec: "{: <-02.4x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-02.4x?}", v[0])), std: |v, o| core::write!(o, "{: <-02.4x?}", v[0]) },
    Site { spec: "{: <-02.4(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-02.4(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: <-02.4X?}", v[0]) },
    Site { spec: "{:<-#}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#}", v[0])), std: |v, o| core::write!(o, "{:<-#}", v[0]) },
    Site { spec: "{:<-#X}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:<-#", "X}"), v[0])), std: |v, o| core::write!(o, "{:<-#X}", v[0]) },
    Site { spec: "{:<-#?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#?}", v[0])), std: |v, o| core::write!(o, "{:<-#?}", v[0]) },
    Site { spec: "{:<-#x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#x?}", v[0])), std: |v, o| core::write!(o, "{:<-#x?}", v[0]) },
    Site { spec: "{:<-#X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#X?}", v[0])), std: |v, o| core::write!(o, "{:<-#X?}", v[0]) },
    Site { spec: "{: <-#.70(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#.70(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{: <-#.70}", v[0]) },
    Site { spec: "{: <-#.70X}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#.70X}", v[0])), std: |v, o| core::write!(o, "{: <-#.70X}", v[0]) },
    Site { spec: "{: <-#.70?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#.70?}", v[0])), std: |v, o| core::write!(o, "{: <-#.70?}", v[0]) },
    Site { spec: "{: <-#.70x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#.70x?}", v[0])), std: |v, o| core::write!(o, "{: <-#.70x?}", v[0]) },
    Site { spec: "{: <-#.70(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#.70(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: <-#.70X?}", v[0]) },
    Site { spec: "{:<-#1}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#1}", v[0])), std: |v, o| core::write!(o, "{:<-#1}", v[0]) },
    Site { spec: "{:<-#1p}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#1p}", v[0])), std: |v, o| core::write!(o, "{:<-#1p}", v[0]) },
    Site { spec: "{:<-#1(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#1(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:<-#1?}", v[0]) },
    Site { spec: "{:<-#1(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#1(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:<-#1x?}", v[0]) },
    Site { spec: "{:<-#1(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#1(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:<-#1X?}", v[0]) },
    Site { spec: "{:<-#7.9(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#7.9(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:<-#7.9}", v[0]) },
    Site { spec: "{:<-#7.9X}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#7.9X}", v[0])), std: |v, o| core::write!(o, "{:<-#7.9X}", v[0]) },
    Site { spec: "{:<-#7.9?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<-#7.9?}", v[0]), std: |v, o| core::writeln!(o, "{:<-#7.9?}", v[0]) },
    Site { spec: "{:<-#7.9(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#7.9(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:<-#7.9x?}", v[0]) },
    Site { spec: "{:<-#7.9X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#7.9X?}", v[0])), std: |v, o| core::write!(o, "{:<-#7.9X?}", v[0]) },
    Site { spec: "{:<-#0(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#0(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:<-#0}", v[0]) },
    Site { spec: "{:<-#0X}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#0X}", v[0])), std: |v, o| core::write!(o, "{:<-#0X}", v[0]) },
    Site { spec: "{:<-#0(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#0(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:<-#0?}", v[0]) },
    Site { spec: "{:<-#0(fg=red)x?}\t", n: 1, styl: |v, k| stylish::write!(K(k), "{:<-#0(fg=red)x?}\t", v[0]), std: |v, o| core::write!(o, "{:<-#0x?}\t", v[0]) },
    Site { spec: "{:<-#0(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#0(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:<-#0X?}", v[0]) },
    Site { spec: "{: <-#0.2}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#0.2}", v[0])), std: |v, o| core::write!(o, "{: <-#0.2}", v[0]) },
    Site { spec: "{: <-#0.2E}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#0.2E}", v[0])), std: |v, o| core::write!(o, "{: <-#0.2E}", v[0]) },
    Site { spec: "{: <-#0.2?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#0.2?}", v[0])), std: |v, o| core::write!(o, "{: <-#0.2?}", v[0]) },
    Site { spec: "{: <-#0.2x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#0.2x?}", v[0])), std: |v, o| core::write!(o, "{: <-#0.2x?}", v[0]) },
    Site { spec: "{: <-#0.2(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#0.2(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: <-#0.2X?}", v[0]) },
    Site { spec: "{: <-#0300}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#0300}", v[0])), std: |v, o| core::write!(o, "{: <-#0300}", v[0]) },
    Site { spec: "{: <-#0300X}\\", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: <-#0300X}\\", v[0]), std: |v, o| core::writeln!(o, "{: <-#0300X}\\", v[0]) },
    Site { spec: "{: <-#0300?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#0300?}", v[0])), std: |v, o| core::write!(o, "{: <-#0300?}", v[0]) },
    Site { spec: "{: <-#0300x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: <-#0300x?}", v[0])), std: |v, o| core::write!(o, "{: <-#0300x?}", v[0]) },
    Site { spec: "{: <-#0300X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: <", "-#0300X?}"), v[0])), std: |v, o| core::write!(o, "{: <-#0300X?}", v[0]) },
    Site { spec: "{:<-#01.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#01.0}", v[0])), std: |v, o| core::write!(o, "{:<-#01.0}", v[0]) },
    Site { spec: "{:<-#01.0x}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#01.0x}", v[0])), std: |v, o| core::write!(o, "{:<-#01.0x}", v[0]) },
    Site { spec: "{:<-#01.0?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<-#01.0?}", v[0]), std: |v, o| core::writeln!(o, "{:<-#01.0?}", v[0]) },
    Site { spec: "{:<-#01.0(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#01.0(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:<-#01.0x?}", v[0]) },
    Site { spec: "{:<-#01.0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:<-#01.0X?}", v[0])), std: |v, o| core::write!(o, "{:<-#01.0X?}", v[0]) },
    Site { spec: "{:^}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:^", "}"), v[0])), std: |v, o| core::write!(o, "{:^}", v[0]) },
    Site { spec: "{:^b}", n: 1, styl: |v, k| k(stylish::format_args!("{:^b}", v[0])), std: |v, o| core::write!(o, "{:^b}", v[0]) },
    Site { spec: "{:^?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^?}", v[0])), std: |v, o| core::write!(o, "{:^?}", v[0]) },
    Site { spec: "{:^x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^x?}", v[0])), std: |v, o| core::write!(o, "{:^x?}", v[0]) },
    Site { spec: "{:^X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^X?}", v[0])), std: |v, o| core::write!(o, "{:^X?}", v[0]) },
    Site { spec: "{:^.20}", n: 1, styl: |v, k| k(stylish::format_args!("{:^.20}", v[0])), std: |v, o| core::write!(o, "{:^.20}", v[0]) },
    Site { spec: "{:^.20e}", n: 1, styl: |v, k| stylish::write!(K(k), "{:^.20e}", v[0]), std: |v, o| core::write!(o, "{:^.20e}", v[0]) },
    Site { spec: "{:^.20?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^.20?}", v[0])), std: |v, o| core::write!(o, "{:^.20?}", v[0]) },
    Site { spec: "{:^.20x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^.20x?}", v[0])), std: |v, o| core::write!(o, "{:^.20x?}", v[0]) },
    Site { spec: "{:^.20X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^.20X?}", v[0])), std: |v, o| core::write!(o, "{:^.20X?}", v[0]) },
    Site { spec: "{: ^5}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^5}", v[0])), std: |v, o| core::write!(o, "{: ^5}", v[0]) },
    Site { spec: "{: ^5(fg=red)b}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^5(fg=red)b}", v[0])), std: |v, o| core::write!(o, "{: ^5b}", v[0]) },
    Site { spec: "{: ^5?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^5?}", v[0])), std: |v, o| core::write!(o, "{: ^5?}", v[0]) },
    Site { spec: "{: ^5(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^5(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: ^5x?}", v[0]) },
    Site { spec: "{: ^5(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: ", "^5(fg=red)X?}"), v[0])), std: |v, o| core::write!(o, "{: ^5X?}", v[0]) },
    Site { spec: "{:^7.70(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:^7.70(fg=re", "d)}"), v[0])), std: |v, o| core::write!(o, "{:^7.70}", v[0]) },
    Site { spec: "{:^7.70E}", n: 1, styl: |v, k| k(stylish::format_args!("{:^7.70E}", v[0])), std: |v, o| core::write!(o, "{:^7.70E}", v[0]) },
    Site { spec: "{:^7.70(bg=blue,bold)?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:^7.70(bg=blue,bold)?}", v[0]), std: |v, o| core::writeln!(o, "{:^7.70?}", v[0]) },
    Site { spec: "{:^7.70(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^7.70(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:^7.70x?}", v[0]) },
    Site { spec: "{:^7.70(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^7.70(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:^7.70X?}", v[0]) },
    Site { spec: "{:^0(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:^0(bg=blue,bold)", "}"), v[0])), std: |v, o| core::write!(o, "{:^0}", v[0]) },
    Site { spec: "{:^0(fg=red)x}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:^0(", "fg=red)x}"), v[0])), std: |v, o| core::write!(o, "{:^0x}", v[0]) },
    Site { spec: "{:^0?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^0?}", v[0])), std: |v, o| core::write!(o, "{:^0?}", v[0]) },
    Site { spec: "{:^0(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^0(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:^0x?}", v[0]) },
    Site { spec: "{:^0(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^0(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:^0X?}", v[0]) },
    Site { spec: "{:^0.20(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:^0.20(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:^0.20}", v[0]) },
    Site { spec: "{:^0.20(fg=red)X}", n: 1, styl: |v, k| k(stylish::format_args!("{:^0.20(fg=red)X}", v[0])), std: |v, o| core::write!(o, "{:^0.20X}", v[0]) },
    Site { spec: "{:^0.20?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^0.20?}", v[0])), std: |v, o| core::write!(o, "{:^0.20?}", v[0]) },
    Site { spec: "{:^0.20x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^0.20x?}", v[0])), std: |v, o| core::write!(o, "{:^0.20x?}", v[0]) },
    Site { spec: "{:^0.20X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^0.20X?}", v[0])), std: |v, o| core::write!(o, "{:^0.20X?}", v[0]) },
    Site { spec: "{: ^07}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^07}", v[0])), std: |v, o| core::write!(o, "{: ^07}", v[0]) },
    Site { spec: "{: ^07e}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^07e}", v[0])), std: |v, o| core::write!(o, "{: ^07e}", v[0]) },
    Site { spec: "{: ^07(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^07(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{: ^07?}", v[0]) },
    Site { spec: "{: ^07x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: ^", "07x?}"), v[0])), std: |v, o| core::write!(o, "{: ^07x?}", v[0]) },
    Site { spec: "{: ^07X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^07X?}", v[0])), std: |v, o| core::write!(o, "{: ^07X?}", v[0]) },
    Site { spec: "{: ^05.9}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^05.9}", v[0])), std: |v, o| core::write!(o, "{: ^05.9}", v[0]) },
    Site { spec: "{: ^05.9(fg=red)b}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^05.9(fg=red)b}", v[0])), std: |v, o| core::write!(o, "{: ^05.9b}", v[0]) },
    Site { spec: "{: ^05.9(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^05.9(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: ^05.9?}", v[0]) },
    Site { spec: "{: ^05.9x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^05.9x?}", v[0])), std: |v, o| core::write!(o, "{: ^05.9x?}", v[0]) },
    Site { spec: "{: ^05.9(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^05.9(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{: ^05.9X?}", v[0]) },
    Site { spec: "{: ^#}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#}", v[0])), std: |v, o| core::write!(o, "{: ^#}", v[0]) },
    Site { spec: "{: ^#x}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#x}", v[0])), std: |v, o| core::write!(o, "{: ^#x}", v[0]) },
    Site { spec: "{: ^#?}\0", n: 1, styl: |v, k| stylish::write!(K(k), "{: ^#?}\0", v[0]), std: |v, o| core::write!(o, "{: ^#?}\0", v[0]) },
    Site { spec: "{: ^#x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#x?}", v[0])), std: |v, o| core::write!(o, "{: ^#x?}", v[0]) },
    Site { spec: "{: ^#X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#X?}", v[0])), std: |v, o| core::write!(o, "{: ^#X?}", v[0]) },
    Site { spec: "{: ^#.20(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#.20(fg=red)}", v[0])), std: |v, o| core::write!(o, "{: ^#.20}", v[0]) },
    Site { spec: "{: ^#.20(bg=blue,bold)E}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: ^#.20(bg=blue,bold)E", "}"), v[0])), std: |v, o| core::write!(o, "{: ^#.20E}", v[0]) },
    Site { spec: "{: ^#.20?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#.20?}", v[0])), std: |v, o| core::write!(o, "{: ^#.20?}", v[0]) },
    Site { spec: "{: ^#.20(fg=red)x?}", n: 1, styl: |v, k| stylish::write!(K(k), "{: ^#.20(fg=red)x?}", v[0]), std: |v, o| core::write!(o, "{: ^#.20x?}", v[0]) },
    Site { spec: "{: ^#.20X?}\0", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: ^#.20X?}\0", v[0]), std: |v, o| core::writeln!(o, "{: ^#.20X?}\0", v[0]) },
    Site { spec: "{: ^#1}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#1}", v[0])), std: |v, o| core::write!(o, "{: ^#1}", v[0]) },
    Site { spec: "{: ^#1b}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#1b}", v[0])), std: |v, o| core::write!(o, "{: ^#1b}", v[0]) },
    Site { spec: "{: ^#1(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#1(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{: ^#1?}", v[0]) },
    Site { spec: "{: ^#1(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#1(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: ^#1x?}", v[0]) },
    Site { spec: "{: ^#1X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#1X?}", v[0])), std: |v, o| core::write!(o, "{: ^#1X?}", v[0]) },
    Site { spec: "{:^#66.4(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#66.4(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:^#66.4}", v[0]) },
    Site { spec: "{:^#66.4(bg=blue,bold)x}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#66.4(bg=blue,bold)x}", v[0])), std: |v, o| core::write!(o, "{:^#66.4x}", v[0]) },
    Site { spec: "{:^#66.4?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#66.4?}", v[0])), std: |v, o| core::write!(o, "{:^#66.4?}", v[0]) },
    Site { spec: "{:^#66.4x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#66.4x?}", v[0])), std: |v, o| core::write!(o, "{:^#66.4x?}", v[0]) },
    Site { spec: "{:^#66.4X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#66.4X?}", v[0])), std: |v, o| core::write!(o, "{:^#66.4X?}", v[0]) },
    Site { spec: "{:^#0}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#0}", v[0])), std: |v, o| core::write!(o, "{:^#0}", v[0]) },
    Site { spec: "{:^#0(fg=red)x}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#0(fg=red)x}", v[0])), std: |v, o| core::write!(o, "{:^#0x}", v[0]) },
    Site { spec: "{:^#0?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#0?}", v[0])), std: |v, o| core::write!(o, "{:^#0?}", v[0]) },
    Site { spec: "{:^#0x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:^#0x?}", ""), v[0])), std: |v, o| core::write!(o, "{:^#0x?}", v[0]) },
    Site { spec: "{:^#0(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#0(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:^#0X?}", v[0]) },
    Site { spec: "{: ^#0.0}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#0.0}", v[0])), std: |v, o| core::write!(o, "{: ^#0.0}", v[0]) },
    Site { spec: "{: ^#0.0E}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#0.0E}", v[0])), std: |v, o| core::write!(o, "{: ^#0.0E}", v[0]) },
    Site { spec: "{: ^#0.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#0.0?}", v[0])), std: |v, o| core::write!(o, "{: ^#0.0?}", v[0]) },
    Site { spec: "{: ^#0.0(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#0.0(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{: ^#0.0x?}", v[0]) },
    Site { spec: "{: ^#0.0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^#0.0X?}", v[0])), std: |v, o| core::write!(o, "{: ^#0.0X?}", v[0]) },
    Site { spec: "{:^#02}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{", ":^#02}"), v[0])), std: |v, o| core::write!(o, "{:^#02}", v[0]) },
    Site { spec: "{:^#02o}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:^#02o", "}"), v[0])), std: |v, o| core::write!(o, "{:^#02o}", v[0]) },
    Site { spec: "{:^#02?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:^", "#02?}"), v[0])), std: |v, o| core::write!(o, "{:^#02?}", v[0]) },
    Site { spec: "{:^#02x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#02x?}", v[0])), std: |v, o| core::write!(o, "{:^#02x?}", v[0]) },
    Site { spec: "{:^#02(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#02(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:^#02X?}", v[0]) },
    Site { spec: "{:^#0300.4}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#0300.4}", v[0])), std: |v, o| core::write!(o, "{:^#0300.4}", v[0]) },
    Site { spec: "{:^#0300.4b}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#0300.4b}", v[0])), std: |v, o| core::write!(o, "{:^#0300.4b}", v[0]) },
    Site { spec: "{:^#0300.4(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:^#0300.4(f", "g=red)?}"), v[0])), std: |v, o| core::write!(o, "{:^#0300.4?}", v[0]) },
    Site { spec: "{:^#0300.4x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#0300.4x?}", v[0])), std: |v, o| core::write!(o, "{:^#0300.4x?}", v[0]) },
    Site { spec: "{:^#0300.4X?}", n: 1, styl: |v, k| stylish::write!(K(k), "{:^#0300.4X?}", v[0]), std: |v, o| core::write!(o, "{:^#0300.4X?}", v[0]) },
    Site { spec: "{: ^+(bg=blue,bold)}", n: 1, styl: |v, k| stylish::write!(K(k), "{: ^+(bg=blue,bold)}", v[0]), std: |v, o| core::write!(o, "{: ^+}", v[0]) },
    Site { spec: "{: ^+(bg=blue,bold)e}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+(bg=blue,bold)e}", v[0])), std: |v, o| core::write!(o, "{: ^+e}", v[0]) },
    Site { spec: "{: ^+?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+?}", v[0])), std: |v, o| core::write!(o, "{: ^+?}", v[0]) },
    Site { spec: "{: ^+x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+x?}", v[0])), std: |v, o| core::write!(o, "{: ^+x?}", v[0]) },
    Site { spec: "{: ^+X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+X?}", v[0])), std: |v, o| core::write!(o, "{: ^+X?}", v[0]) },
    Site { spec: "{:^+.1(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+.1(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:^+.1}", v[0]) },
    Site { spec: "{:^+.1b}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+.1b}", v[0])), std: |v, o| core::write!(o, "{:^+.1b}", v[0]) },
    Site { spec: "{:^+.1?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:^+", ".1?}"), v[0])), std: |v, o| core::write!(o, "{:^+.1?}", v[0]) },
    Site { spec: "{:^+.1x?} ", n: 1, styl: |v, k| stylish::write!(K(k), "{:^+.1x?} ", v[0]), std: |v, o| core::write!(o, "{:^+.1x?} ", v[0]) },
    Site { spec: "{:^+.1(fg=red)X?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:^+.1(fg=red)X?}", v[0]), std: |v, o| core::writeln!(o, "{:^+.1X?}", v[0]) },
    Site { spec: "{:^+66}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+66}", v[0])), std: |v, o| core::write!(o, "{:^+66}", v[0]) },
    Site { spec: "{:^+66b}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+66b}", v[0])), std: |v, o| core::write!(o, "{:^+66b}", v[0]) },
    Site { spec: "{:^+66?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+66?}", v[0])), std: |v, o| core::write!(o, "{:^+66?}", v[0]) },
    Site { spec: "{:^+66(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+66(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:^+66x?}", v[0]) },
    Site { spec: "{:^+66X?}\t", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:^+66X?}\t", v[0]), std: |v, o| core::writeln!(o, "{:^+66X?}\t", v[0]) },
    Site { spec: "{:^+20.4}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+20.4}", v[0])), std: |v, o| core::write!(o, "{:^+20.4}", v[0]) },
    Site { spec: "{:^+20.4E}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+20.4E}", v[0])), std: |v, o| core::write!(o, "{:^+20.4E}", v[0]) },
    Site { spec: "{:^+20.4(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{:^+20.4(bg=blue,bold)?}"), v[0])), std: |v, o| core::write!(o, "{:^+20.4?}", v[0]) },
    Site { spec: "{:^+20.4x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{:^+20.4x?}"), v[0])), std: |v, o| core::write!(o, "{:^+20.4x?}", v[0]) },
    Site { spec: "{:^+20.4X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:^+20.4X", "?}"), v[0])), std: |v, o| core::write!(o, "{:^+20.4X?}", v[0]) },
    Site { spec: "{: ^+0}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+0}", v[0])), std: |v, o| core::write!(o, "{: ^+0}", v[0]) },
    Site { spec: "{: ^+0(fg=red)p}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+0(fg=red)p}", v[0])), std: |v, o| core::write!(o, "{: ^+0p}", v[0]) },
    Site { spec: "{: ^+0(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+0(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{: ^+0?}", v[0]) },
    Site { spec: "{: ^+0x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{", ": ^+0x?}"), v[0])), std: |v, o| core::write!(o, "{: ^+0x?}", v[0]) },
    Site { spec: "{: ^+0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+0X?}", v[0])), std: |v, o| core::write!(o, "{: ^+0X?}", v[0]) },
    Site { spec: "{:^+0.20}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+0.20}", v[0])), std: |v, o| core::write!(o, "{:^+0.20}", v[0]) },
    Site { spec: "{:^+0.20X}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+0.20X}", v[0])), std: |v, o| core::write!(o, "{:^+0.20X}", v[0]) },
    Site { spec: "{:^+0.20(bg=blue,bold)?}{{", n: 1, styl: |v, k| stylish::write!(K(k), "{:^+0.20(bg=blue,bold)?}{{", v[0]), std: |v, o| core::write!(o, "{:^+0.20?}{{", v[0]) },
    Site { spec: "{:^+0.20x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+0.20x?}", v[0])), std: |v, o| core::write!(o, "{:^+0.20x?}", v[0]) },
    Site { spec: "{:^+0.20(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+0.20(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:^+0.20X?}", v[0]) },
    Site { spec: "{:^+05}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+05}", v[0])), std: |v, o| core::write!(o, "{:^+05}", v[0]) },
    Site { spec: "{:^+05b}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+05b}", v[0])), std: |v, o| core::write!(o, "{:^+05b}", v[0]) },
    Site { spec: "{:^+05?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+05?}", v[0])), std: |v, o| core::write!(o, "{:^+05?}", v[0]) },
    Site { spec: "{:^+05x?}\r", n: 1, styl: |v, k| stylish::write!(K(k), "{:^+05x?}\r", v[0]), std: |v, o| core::write!(o, "{:^+05x?}\r", v[0]) },
    Site { spec: "{:^+05(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+05(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:^+05X?}", v[0]) },
    Site { spec: "{: ^+012.20(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+012.20(fg=red)}", v[0])), std: |v, o| core::write!(o, "{: ^+012.20}", v[0]) },
    Site { spec: "{: ^+012.20(fg=red)e}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: ^+012.20(fg=red)e}", v[0]), std: |v, o| core::writeln!(o, "{: ^+012.20e}", v[0]) },
    Site { spec: "{: ^+012.20(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+012.20(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: ^+012.20?}", v[0]) },
    Site { spec: "{: ^+012.20(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+012.20(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: ^+012.20x?}", v[0]) },
    Site { spec: "{: ^+012.20(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+012.20(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{: ^+012.20X?}", v[0]) },
    Site { spec: "{: ^+#(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#(fg=red)}", v[0])), std: |v, o| core::write!(o, "{: ^+#}", v[0]) },
    Site { spec: "{: ^+#(fg=red)X}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:", " ^+#(fg=red)X}"), v[0])), std: |v, o| core::write!(o, "{: ^+#X}", v[0]) },
    Site { spec: "{: ^+#?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#?}", v[0])), std: |v, o| core::write!(o, "{: ^+#?}", v[0]) },
    Site { spec: "{: ^+#(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{: ^+#x?}", v[0]) },
    Site { spec: "{: ^+#(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: ^+#X?}", v[0]) },
    Site { spec: "{:^+#.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#.0}", v[0])), std: |v, o| core::write!(o, "{:^+#.0}", v[0]) },
    Site { spec: "{:^+#.0b}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#.0b}", v[0])), std: |v, o| core::write!(o, "{:^+#.0b}", v[0]) },
    Site { spec: "{:^+#.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#.0?}", v[0])), std: |v, o| core::write!(o, "{:^+#.0?}", v[0]) },
    Site { spec: "{:^+#.0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#.0x?}", v[0])), std: |v, o| core::write!(o, "{:^+#.0x?}", v[0]) },
    Site { spec: "{:^+#.0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#.0X?}", v[0])), std: |v, o| core::write!(o, "{:^+#.0X?}", v[0]) },
    Site { spec: "{:^+#66}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#66}", v[0])), std: |v, o| core::write!(o, "{:^+#66}", v[0]) },
    Site { spec: "{:^+#66(fg=red)e}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#66(fg=red)e}", v[0])), std: |v, o| core::write!(o, "{:^+#66e}", v[0]) },
    Site { spec: "{:^+#66(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#66(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:^+#66?}", v[0]) },
    Site { spec: "{:^+#66x?} ", n: 1, styl: |v, k| stylish::write!(K(k), "{:^+#66x?} ", v[0]), std: |v, o| core::write!(o, "{:^+#66x?} ", v[0]) },
    Site { spec: "{:^+#66X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#66X?}", v[0])), std: |v, o| core::write!(o, "{:^+#66X?}", v[0]) },
    Site { spec: "{: ^+#2.0(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: ^+#2.0(bg=bl", "ue,bold)}"), v[0])), std: |v, o| core::write!(o, "{: ^+#2.0}", v[0]) },
    Site { spec: "{: ^+#2.0(bg=blue,bold)X}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#2.0(bg=blue,bold)X}", v[0])), std: |v, o| core::write!(o, "{: ^+#2.0X}", v[0]) },
    Site { spec: "{: ^+#2.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#2.0?}", v[0])), std: |v, o| core::write!(o, "{: ^+#2.0?}", v[0]) },
    Site { spec: "{: ^+#2.0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#2.0x?}", v[0])), std: |v, o| core::write!(o, "{: ^+#2.0x?}", v[0]) },
    Site { spec: "{: ^+#2.0X?}\0", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: ^+#2.0X?}\0", v[0]), std: |v, o| core::writeln!(o, "{: ^+#2.0X?}\0", v[0]) },
    Site { spec: "{: ^+#0}}}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: ^+#0}}}", v[0]), std: |v, o| core::writeln!(o, "{: ^+#0}}}", v[0]) },
    Site { spec: "{: ^+#0(fg=red)e}}}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: ^+#0(fg=red)e}}}", v[0]), std: |v, o| core::writeln!(o, "{: ^+#0e}}}", v[0]) },
    Site { spec: "{: ^+#0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#0?}", v[0])), std: |v, o| core::write!(o, "{: ^+#0?}", v[0]) },
    Site { spec: "{: ^+#0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#0x?}", v[0])), std: |v, o| core::write!(o, "{: ^+#0x?}", v[0]) },
    Site { spec: "{: ^+#0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#0X?}", v[0])), std: |v, o| core::write!(o, "{: ^+#0X?}", v[0]) },
    Site { spec: "{: ^+#0.9(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#0.9(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{: ^+#0.9}", v[0]) },
    Site { spec: "{: ^+#0.9b}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#0.9b}", v[0])), std: |v, o| core::write!(o, "{: ^+#0.9b}", v[0]) },
    Site { spec: "{: ^+#0.9?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#0.9?}", v[0])), std: |v, o| core::write!(o, "{: ^+#0.9?}", v[0]) },
    Site { spec: "{: ^+#0.9x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#0.9x?}", v[0])), std: |v, o| core::write!(o, "{: ^+#0.9x?}", v[0]) },
    Site { spec: "{: ^+#0.9X?}\r", n: 1, styl: |v, k| stylish::write!(K(k), "{: ^+#0.9X?}\r", v[0]), std: |v, o| core::write!(o, "{: ^+#0.9X?}\r", v[0]) },
    Site { spec: "{:^+#02}\\", n: 1, styl: |v, k| stylish::write!(K(k), "{:^+#02}\\", v[0]), std: |v, o| core::write!(o, "{:^+#02}\\", v[0]) },
    Site { spec: "{:^+#02(bg=blue,bold)X}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#02(bg=blue,bold)X}", v[0])), std: |v, o| core::write!(o, "{:^+#02X}", v[0]) },
    Site { spec: "{:^+#02?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#02?}", v[0])), std: |v, o| core::write!(o, "{:^+#02?}", v[0]) },
    Site { spec: "{:^+#02(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#02(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:^+#02x?}", v[0]) },
    Site { spec: "{:^+#02(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#02(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:^+#02X?}", v[0]) },
    Site { spec: "{: ^+#07.0}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#07.0}", v[0])), std: |v, o| core::write!(o, "{: ^+#07.0}", v[0]) },
    Site { spec: "{: ^+#07.0x}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#07.0x}", v[0])), std: |v, o| core::write!(o, "{: ^+#07.0x}", v[0]) },
    Site { spec: "{: ^+#07.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#07.0?}", v[0])), std: |v, o| core::write!(o, "{: ^+#07.0?}", v[0]) },
    Site { spec: "{: ^+#07.0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#07.0x?}", v[0])), std: |v, o| core::write!(o, "{: ^+#07.0x?}", v[0]) },
    Site { spec: "{: ^+#07.0(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+#07.0(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: ^+#07.0X?}", v[0]) },
    Site { spec: "{:^-}\r\n", n: 1, styl: |v, k| stylish::write!(K(k), "{:^-}\r\n", v[0]), std: |v, o| core::write!(o, "{:^-}\r\n", v[0]) },
    Site { spec: "{:^-e}\0", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:^-e}\0", v[0]), std: |v, o| core::writeln!(o, "{:^-e}\0", v[0]) },
    Site { spec: "{:^-?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-?}", v[0])), std: |v, o| core::write!(o, "{:^-?}", v[0]) },
    Site { spec: "{:^-x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-x?}", v[0])), std: |v, o| core::write!(o, "{:^-x?}", v[0]) },
    Site { spec: "{:^-X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-X?}", v[0])), std: |v, o| core::write!(o, "{:^-X?}", v[0]) },
    Site { spec: "{: ^-.20}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: ^-.20}", v[0]), std: |v, o| core::writeln!(o, "{: ^-.20}", v[0]) },
    Site { spec: "{: ^-.20(fg=red)o}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-.20(fg=red)o}", v[0])), std: |v, o| core::write!(o, "{: ^-.20o}", v[0]) },
    Site { spec: "{: ^-.20(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-.20(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: ^-.20?}", v[0]) },
    Site { spec: "{: ^-.20(fg=red)x?}{{", n: 1, styl: |v, k| stylish::write!(K(k), "{: ^-.20(fg=red)x?}{{", v[0]), std: |v, o| core::write!(o, "{: ^-.20x?}{{", v[0]) },
    Site { spec: "{: ^-.20X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-.20X?}", v[0])), std: |v, o| core::write!(o, "{: ^-.20X?}", v[0]) },
    Site { spec: "{: ^-12}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: ^", "-12}"), v[0])), std: |v, o| core::write!(o, "{: ^-12}", v[0]) },
    Site { spec: "{: ^-12E}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-12E}", v[0])), std: |v, o| core::write!(o, "{: ^-12E}", v[0]) },
    Site { spec: "{: ^-12?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-12?}", v[0])), std: |v, o| core::write!(o, "{: ^-12?}", v[0]) },
    Site { spec: "{: ^-12x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-12x?}", v[0])), std: |v, o| core::write!(o, "{: ^-12x?}", v[0]) },
    Site { spec: "{: ^-12(bg=blue,bold)X?}{{", n: 1, styl: |v, k| stylish::write!(K(k), "{: ^-12(bg=blue,bold)X?}{{", v[0]), std: |v, o| core::write!(o, "{: ^-12X?}{{", v[0]) },
    Site { spec: "{: ^-2.1(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-2.1(fg=red)}", v[0])), std: |v, o| core::write!(o, "{: ^-2.1}", v[0]) },
    Site { spec: "{: ^-2.1x}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-2.1x}", v[0])), std: |v, o| core::write!(o, "{: ^-2.1x}", v[0]) },
    Site { spec: "{: ^-2.1?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{: ^-2.1?}"), v[0])), std: |v, o| core::write!(o, "{: ^-2.1?}", v[0]) },
    Site { spec: "{: ^-2.1x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: ^-2.1x?}", ""), v[0])), std: |v, o| core::write!(o, "{: ^-2.1x?}", v[0]) },
    Site { spec: "{: ^-2.1X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-2.1X?}", v[0])), std: |v, o| core::write!(o, "{: ^-2.1X?}", v[0]) },
    Site { spec: "{: ^-0(fg=red)}}}", n: 1, styl: |v, k| stylish::write!(K(k), "{: ^-0(fg=red)}}}", v[0]), std: |v, o| core::write!(o, "{: ^-0}}}", v[0]) },
    Site { spec: "{: ^-0e}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-0e}", v[0])), std: |v, o| core::write!(o, "{: ^-0e}", v[0]) },
    Site { spec: "{: ^-0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-0?}", v[0])), std: |v, o| core::write!(o, "{: ^-0?}", v[0]) },
    Site { spec: "{: ^-0(fg=red)x?}\n", n: 1, styl: |v, k| stylish::write!(K(k), "{: ^-0(fg=red)x?}\n", v[0]), std: |v, o| core::write!(o, "{: ^-0x?}\n", v[0]) },
    Site { spec: "{: ^-0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-0X?}", v[0])), std: |v, o| core::write!(o, "{: ^-0X?}", v[0]) },
    Site { spec: "{: ^-0.4}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-0.4}", v[0])), std: |v, o| core::write!(o, "{: ^-0.4}", v[0]) },
    Site { spec: "{: ^-0.4X}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-0.4X}", v[0])), std: |v, o| core::write!(o, "{: ^-0.4X}", v[0]) },
    Site { spec: "{: ^-0.4(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-0.4(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: ^-0.4?}", v[0]) },
    Site { spec: "{: ^-0.4x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-0.4x?}", v[0])), std: |v, o| core::write!(o, "{: ^-0.4x?}", v[0]) },
    Site { spec: "{: ^-0.4X?}\r", n: 1, styl: |v, k| stylish::write!(K(k), "{: ^-0.4X?}\r", v[0]), std: |v, o| core::write!(o, "{: ^-0.4X?}\r", v[0]) },
    Site { spec: "{: ^-066}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-066}", v[0])), std: |v, o| core::write!(o, "{: ^-066}", v[0]) },
    Site { spec: "{: ^-066o}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: ^-", "066o}"), v[0])), std: |v, o| core::write!(o, "{: ^-066o}", v[0]) },
    Site { spec: "{: ^-066?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-066?}", v[0])), std: |v, o| core::write!(o, "{: ^-066?}", v[0]) },
    Site { spec: "{: ^-066(fg=red)x?}}}", n: 1, styl: |v, k| stylish::write!(K(k), "{: ^-066(fg=red)x?}}}", v[0]), std: |v, o| core::write!(o, "{: ^-066x?}}}", v[0]) },
    Site { spec: "{: ^-066X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-066X?}", v[0])), std: |v, o| core::write!(o, "{: ^-066X?}", v[0]) },
    Site { spec: "{: ^-00.70}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-00.70}", v[0])), std: |v, o| core::write!(o, "{: ^-00.70}", v[0]) },
    Site { spec: "{: ^-00.70(bg=blue,bold)o}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-00.70(bg=blue,bold)o}", v[0])), std: |v, o| core::write!(o, "{: ^-00.70o}", v[0]) },
    Site { spec: "{: ^-00.70?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-00.70?}", v[0])), std: |v, o| core::write!(o, "{: ^-00.70?}", v[0]) },
    Site { spec: "{: ^-00.70(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-00.70(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: ^-00.70x?}", v[0]) },
    Site { spec: "{: ^-00.70(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: ^-0", "0.70(bg=blue,bold)X?}"), v[0])), std: |v, o| core::write!(o, "{: ^-00.70X?}", v[0]) },
    Site { spec: "{:^-#(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-#(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:^-#}", v[0]) },
    Site { spec: "{:^-#e}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-#e}", v[0])), std: |v, o| core::write!(o, "{:^-#e}", v[0]) },
    Site { spec: "{:^-#?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-#?}", v[0])), std: |v, o| core::write!(o, "{:^-#?}", v[0]) },
    Site { spec: "{:^-#x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-#x?}", v[0])), std: |v, o| core::write!(o, "{:^-#x?}", v[0]) },
    Site { spec: "{:^-#X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-#X?}", v[0])), std: |v, o| core::write!(o, "{:^-#X?}", v[0]) },
    Site { spec: "{: ^-#.2}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#.2}", v[0])), std: |v, o| core::write!(o, "{: ^-#.2}", v[0]) },
    Site { spec: "{: ^-#.2x}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#.2x}", v[0])), std: |v, o| core::write!(o, "{: ^-#.2x}", v[0]) },
    Site { spec: "{: ^-#.2(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#.2(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: ^-#.2?}", v[0]) },
    Site { spec: "{: ^-#.2x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#.2x?}", v[0])), std: |v, o| core::write!(o, "{: ^-#.2x?}", v[0]) },
    Site { spec: "{: ^-#.2X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#.2X?}", v[0])), std: |v, o| core::write!(o, "{: ^-#.2X?}", v[0]) },
    Site { spec: "{: ^-#5(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#5(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{: ^-#5}", v[0]) },
    Site { spec: "{: ^-#5e}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#5e}", v[0])), std: |v, o| core::write!(o, "{: ^-#5e}", v[0]) },
    Site { spec: "{: ^-#5?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#5?}", v[0])), std: |v, o| core::write!(o, "{: ^-#5?}", v[0]) },
    Site { spec: "{: ^-#5x?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: ^-#5x?}", v[0]), std: |v, o| core::writeln!(o, "{: ^-#5x?}", v[0]) },
    Site { spec: "{: ^-#5(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#5(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: ^-#5X?}", v[0]) },
    Site { spec: "{: ^-#2.2(bg=blue,bold)}{{", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: ^-#2.2(bg=blue,bold)}{{", v[0]), std: |v, o| core::writeln!(o, "{: ^-#2.2}{{", v[0]) },
    Site { spec: "{: ^-#2.2(bg=blue,bold)p}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#2.2(bg=blue,bold)p}", v[0])), std: |v, o| core::write!(o, "{: ^-#2.2p}", v[0]) },
    Site { spec: "{: ^-#2.2?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#2.2?}", v[0])), std: |v, o| core::write!(o, "{: ^-#2.2?}", v[0]) },
    Site { spec: "{: ^-#2.2x?}\\", n: 1, styl: |v, k| stylish::write!(K(k), "{: ^-#2.2x?}\\", v[0]), std: |v, o| core::write!(o, "{: ^-#2.2x?}\\", v[0]) },
    Site { spec: "{: ^-#2.2(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#2.2(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: ^-#2.2X?}", v[0]) },
    Site { spec: "{: ^-#0}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#0}", v[0])), std: |v, o| core::write!(o, "{: ^-#0}", v[0]) },
    Site { spec: "{: ^-#0(bg=blue,bold)b}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#0(bg=blue,bold)b}", v[0])), std: |v, o| core::write!(o, "{: ^-#0b}", v[0]) },
    Site { spec: "{: ^-#0(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#0(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: ^-#0?}", v[0]) },
    Site { spec: "{: ^-#0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#0x?}", v[0])), std: |v, o| core::write!(o, "{: ^-#0x?}", v[0]) },
    Site { spec: "{: ^-#0(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#0(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{: ^-#0X?}", v[0]) },
    Site { spec: "{: ^-#0.20(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#0.20(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{: ^-#0.20}", v[0]) },
    Site { spec: "{: ^-#0.20(bg=blue,bold)o}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#0.20(bg=blue,bold)o}", v[0])), std: |v, o| core::write!(o, "{: ^-#0.20o}", v[0]) },
    Site { spec: "{: ^-#0.20?} ", n: 1, styl: |v, k| stylish::write!(K(k), "{: ^-#0.20?} ", v[0]), std: |v, o| core::write!(o, "{: ^-#0.20?} ", v[0]) },
    Site { spec: "{: ^-#0.20(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: ^-", "#0.20(bg=blue,bold)x?}"), v[0])), std: |v, o| core::write!(o, "{: ^-#0.20x?}", v[0]) },
    Site { spec: "{: ^-#0.20(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#0.20(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: ^-#0.20X?}", v[0]) },
    Site { spec: "{:^-#01}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-#01}", v[0])), std: |v, o| core::write!(o, "{:^-#01}", v[0]) },
    Site { spec: "{:^-#01e}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-#01e}", v[0])), std: |v, o| core::write!(o, "{:^-#01e}", v[0]) },
    Site { spec: "{:^-#01(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-#01(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:^-#01?}", v[0]) },
    Site { spec: "{:^-#01(fg=red)x?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:^-#01(fg=red)x?}", v[0]), std: |v, o| core::writeln!(o, "{:^-#01x?}", v[0]) },
    Site { spec: "{:^-#01(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-#01(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:^-#01X?}", v[0]) },
    Site { spec: "{:^-#01.70}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-#01.70}", v[0])), std: |v, o| core::write!(o, "{:^-#01.70}", v[0]) },
    Site { spec: "{:^-#01.70x}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:^-#01.7", "0x}"), v[0])), std: |v, o| core::write!(o, "{:^-#01.70x}", v[0]) },
    Site { spec: "{:^-#01.70(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-#01.70(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:^-#01.70?}", v[0]) },
    Site { spec: "{:^-#01.70x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:^-#01.7", "0x?}"), v[0])), std: |v, o| core::write!(o, "{:^-#01.70x?}", v[0]) },
    Site { spec: "{:^-#01.70(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^-#01.70(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:^-#01.70X?}", v[0]) },
    Site { spec: "{:>(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:>(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:>}", v[0]) },
    Site { spec: "{:>(fg=red)b}", n: 1, styl: |v, k| k(stylish::format_args!("{:>(fg=red)b}", v[0])), std: |v, o| core::write!(o, "{:>b}", v[0]) },
    Site { spec: "{:>(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{:>(bg=blue,bold)?}"), v[0])), std: |v, o| core::write!(o, "{:>?}", v[0]) },
    Site { spec: "{:>x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>x?}", v[0])), std: |v, o| core::write!(o, "{:>x?}", v[0]) },
    Site { spec: "{:>X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>X?}", v[0])), std: |v, o| core::write!(o, "{:>X?}", v[0]) },
    Site { spec: "{:>.4}", n: 1, styl: |v, k| k(stylish::format_args!("{:>.4}", v[0])), std: |v, o| core::write!(o, "{:>.4}", v[0]) },
    Site { spec: "{:>.4E}{{", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>.4E}{{", v[0]), std: |v, o| core::writeln!(o, "{:>.4E}{{", v[0]) },
    Site { spec: "{:>.4(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>.4(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:>.4?}", v[0]) },
    Site { spec: "{:>.4(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>.4(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:>.4x?}", v[0]) },
    Site { spec: "{:>.4(bg=blue,bold)X?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>.4(bg=blue,bold)X?}", v[0]), std: |v, o| core::writeln!(o, "{:>.4X?}", v[0]) },
    Site { spec: "{:>1}", n: 1, styl: |v, k| k(stylish::format_args!("{:>1}", v[0])), std: |v, o| core::write!(o, "{:>1}", v[0]) },
    Site { spec: "{:>1b}", n: 1, styl: |v, k| k(stylish::format_args!("{:>1b}", v[0])), std: |v, o| core::write!(o, "{:>1b}", v[0]) },
    Site { spec: "{:>1?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>1?}", v[0])), std: |v, o| core::write!(o, "{:>1?}", v[0]) },
    Site { spec: "{:>1x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>1x?}", v[0])), std: |v, o| core::write!(o, "{:>1x?}", v[0]) },
    Site { spec: "{:>1X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>1X?}", v[0])), std: |v, o| core::write!(o, "{:>1X?}", v[0]) },
    Site { spec: "{: >20.9(bg=blue,bold)} ", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: >20.9(bg=blue,bold)} ", v[0]), std: |v, o| core::writeln!(o, "{: >20.9} ", v[0]) },
    Site { spec: "{: >20.9p}", n: 1, styl: |v, k| stylish::write!(K(k), "{: >20.9p}", v[0]), std: |v, o| core::write!(o, "{: >20.9p}", v[0]) },
    Site { spec: "{: >20.9?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >20.9?}", v[0])), std: |v, o| core::write!(o, "{: >20.9?}", v[0]) },
    Site { spec: "{: >20.9(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >20.9(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: >20.9x?}", v[0]) },
    Site { spec: "{: >20.9(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >20.9(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: >20.9X?}", v[0]) },
    Site { spec: "{:>0}}}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>0}}}", v[0]), std: |v, o| core::writeln!(o, "{:>0}}}", v[0]) },
    Site { spec: "{:>0b}", n: 1, styl: |v, k| k(stylish::format_args!("{:>0b}", v[0])), std: |v, o| core::write!(o, "{:>0b}", v[0]) },
    Site { spec: "{:>0(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>0(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:>0?}", v[0]) },
    Site { spec: "{:>0x?}", n: 1, styl: |v, k| stylish::write!(K(k), "{:>0x?}", v[0]), std: |v, o| core::write!(o, "{:>0x?}", v[0]) },
    Site { spec: "{:>0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>0X?}", v[0])), std: |v, o| core::write!(o, "{:>0X?}", v[0]) },
    Site { spec: "{:>0.9}", n: 1, styl: |v, k| k(stylish::format_args!("{:>0.9}", v[0])), std: |v, o| core::write!(o, "{:>0.9}", v[0]) },
    Site { spec: "{:>0.9e}", n: 1, styl: |v, k| k(stylish::format_args!("{:>0.9e}", v[0])), std: |v, o| core::write!(o, "{:>0.9e}", v[0]) },
    Site { spec: "{:>0.9?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>0.9?}", v[0])), std: |v, o| core::write!(o, "{:>0.9?}", v[0]) },
    Site { spec: "{:>0.9x?}\r", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>0.9x?}\r", v[0]), std: |v, o| core::writeln!(o, "{:>0.9x?}\r", v[0]) },
    Site { spec: "{:>0.9(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>0.9(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:>0.9X?}", v[0]) },
    Site { spec: "{:>020}", n: 1, styl: |v, k| k(stylish::format_args!("{:>020}", v[0])), std: |v, o| core::write!(o, "{:>020}", v[0]) },
    Site { spec: "{:>020(bg=blue,bold)x}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>020(bg=blue,bold)x}", v[0]), std: |v, o| core::writeln!(o, "{:>020x}", v[0]) },
    Site { spec: "{:>020?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>020?}", v[0])), std: |v, o| core::write!(o, "{:>020?}", v[0]) },
    Site { spec: "{:>020(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>020(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{:>020x?}", v[0]) },
    Site { spec: "{:>020X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>020X?}", v[0])), std: |v, o| core::write!(o, "{:>020X?}", v[0]) },
    Site { spec: "{:>07.9}", n: 1, styl: |v, k| k(stylish::format_args!("{:>07.9}", v[0])), std: |v, o| core::write!(o, "{:>07.9}", v[0]) },
    Site { spec: "{:>07.9E}", n: 1, styl: |v, k| k(stylish::format_args!("{:>07.9E}", v[0])), std: |v, o| core::write!(o, "{:>07.9E}", v[0]) },
    Site { spec: "{:>07.9?}{{", n: 1, styl: |v, k| stylish::write!(K(k), "{:>07.9?}{{", v[0]), std: |v, o| core::write!(o, "{:>07.9?}{{", v[0]) },
    Site { spec: "{:>07.9(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>07.9(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:>07.9x?}", v[0]) },
    Site { spec: "{:>07.9X?}{{", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>07.9X?}{{", v[0]), std: |v, o| core::writeln!(o, "{:>07.9X?}{{", v[0]) },
    Site { spec: "{: >#}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#}", v[0])), std: |v, o| core::write!(o, "{: >#}", v[0]) },
    Site { spec: "{: >#(fg=red)X}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#(fg=red)X}", v[0])), std: |v, o| core::write!(o, "{: >#X}", v[0]) },
    Site { spec: "{: >#(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: >#?}", v[0]) },
    Site { spec: "{: >#x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#x?}", v[0])), std: |v, o| core::write!(o, "{: >#x?}", v[0]) },
    Site { spec: "{: >#X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: >#", "X?}"), v[0])), std: |v, o| core::write!(o, "{: >#X?}", v[0]) },
    Site { spec: "{: >#.0}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#.0}", v[0])), std: |v, o| core::write!(o, "{: >#.0}", v[0]) },
    Site { spec: "{: >#.0b}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#.0b}", v[0])), std: |v, o| core::write!(o, "{: >#.0b}", v[0]) },
    Site { spec: "{: >#.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#.0?}", v[0])), std: |v, o| core::write!(o, "{: >#.0?}", v[0]) },
    Site { spec: "{: >#.0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#.0x?}", v[0])), std: |v, o| core::write!(o, "{: >#.0x?}", v[0]) },
    Site { spec: "{: >#.0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#.0X?}", v[0])), std: |v, o| core::write!(o, "{: >#.0X?}", v[0]) },
    Site { spec: "{: >#0}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0}", v[0])), std: |v, o| core::write!(o, "{: >#0}", v[0]) },
    Site { spec: "{: >#0(fg=red)E}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0(fg=red)E}", v[0])), std: |v, o| core::write!(o, "{: >#0E}", v[0]) },
    Site { spec: "{: >#0(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: >#0?}", v[0]) },
    Site { spec: "{: >#0(fg=red)x?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: >#0(fg=red)x?}", v[0]), std: |v, o| core::writeln!(o, "{: >#0x?}", v[0]) },
    Site { spec: "{: >#0(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: >#0X?}", v[0]) },
    Site { spec: "{: >#12.0}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#12.0}", v[0])), std: |v, o| core::write!(o, "{: >#12.0}", v[0]) },
    Site { spec: "{: >#12.0x}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#12.0x}", v[0])), std: |v, o| core::write!(o, "{: >#12.0x}", v[0]) },
    Site { spec: "{: >#12.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#12.0?}", v[0])), std: |v, o| core::write!(o, "{: >#12.0?}", v[0]) },
    Site { spec: "{: >#12.0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#12.0x?}", v[0])), std: |v, o| core::write!(o, "{: >#12.0x?}", v[0]) },
    Site { spec: "{: >#12.0X?}\r", n: 1, styl: |v, k| stylish::write!(K(k), "{: >#12.0X?}\r", v[0]), std: |v, o| core::write!(o, "{: >#12.0X?}\r", v[0]) },
    Site { spec: "{: >#0(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0(fg=red)}", v[0])), std: |v, o| core::write!(o, "{: >#0}", v[0]) },
    Site { spec: "{: >#0b}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: >#", "0b}"), v[0])), std: |v, o| core::write!(o, "{: >#0b}", v[0]) },
    Site { spec: "{: >#0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0?}", v[0])), std: |v, o| core::write!(o, "{: >#0?}", v[0]) },
    Site { spec: "{: >#0(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: >#0x?}", v[0]) },
    Site { spec: "{: >#0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0X?}", v[0])), std: |v, o| core::write!(o, "{: >#0X?}", v[0]) },
    Site { spec: "{: >#0.0}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0.0}", v[0])), std: |v, o| core::write!(o, "{: >#0.0}", v[0]) },
    Site { spec: "{: >#0.0E}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0.0E}", v[0])), std: |v, o| core::write!(o, "{: >#0.0E}", v[0]) },
    Site { spec: "{: >#0.0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0.0?}", v[0])), std: |v, o| core::write!(o, "{: >#0.0?}", v[0]) },
    Site { spec: "{: >#0.0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0.0x?}", v[0])), std: |v, o| core::write!(o, "{: >#0.0x?}", v[0]) },
    Site { spec: "{: >#0.0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >#0.0X?}", v[0])), std: |v, o| core::write!(o, "{: >#0.0X?}", v[0]) },
    Site { spec: "{:>#066}\t", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>#066}\t", v[0]), std: |v, o| core::writeln!(o, "{:>#066}\t", v[0]) },
    Site { spec: "{:>#066(fg=red)E}", n: 1, styl: |v, k| k(stylish::format_args!("{:>#066(fg=red)E}", v[0])), std: |v, o| core::write!(o, "{:>#066E}", v[0]) },
    Site { spec: "{:>#066(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>#066(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:>#066?}", v[0]) },
    Site { spec: "{:>#066x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{:>#066x?}"), v[0])), std: |v, o| core::write!(o, "{:>#066x?}", v[0]) },
    Site { spec: "{:>#066(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>#066(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:>#066X?}", v[0]) },
    Site { spec: "{:>#00.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:>#00.0}", v[0])), std: |v, o| core::write!(o, "{:>#00.0}", v[0]) },
    Site { spec: "{:>#00.0E}", n: 1, styl: |v, k| k(stylish::format_args!("{:>#00.0E}", v[0])), std: |v, o| core::write!(o, "{:>#00.0E}", v[0]) },
    Site { spec: "{:>#00.0(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>#00.0(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:>#00.0?}", v[0]) },
    Site { spec: "{:>#00.0(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>#00.0(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:>#00.0x?}", v[0]) },
    Site { spec: "{:>#00.0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>#00.0X?}", v[0])), std: |v, o| core::write!(o, "{:>#00.0X?}", v[0]) },
    Site { spec: "{: >+}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+}", v[0])), std: |v, o| core::write!(o, "{: >+}", v[0]) },
    Site { spec: "{: >+(bg=blue,bold)E}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+(bg=blue,bold)E}", v[0])), std: |v, o| core::write!(o, "{: >+E}", v[0]) },
    Site { spec: "{: >+?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+?}", v[0])), std: |v, o| core::write!(o, "{: >+?}", v[0]) },
    Site { spec: "{: >+x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+x?}", v[0])), std: |v, o| core::write!(o, "{: >+x?}", v[0]) },
    Site { spec: "{: >+(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: >+(f", "g=red)X?}"), v[0])), std: |v, o| core::write!(o, "{: >+X?}", v[0]) },
    Site { spec: "{:>+.2}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+.2}", v[0])), std: |v, o| core::write!(o, "{:>+.2}", v[0]) },
    Site { spec: "{:>+.2(fg=red)E}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+.2(fg=red)E}", v[0])), std: |v, o| core::write!(o, "{:>+.2E}", v[0]) },
    Site { spec: "{:>+.2(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+.2(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:>+.2?}", v[0]) },
    Site { spec: "{:>+.2x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+.2x?}", v[0])), std: |v, o| core::write!(o, "{:>+.2x?}", v[0]) },
    Site { spec: "{:>+.2X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+.2X?}", v[0])), std: |v, o| core::write!(o, "{:>+.2X?}", v[0]) },
    Site { spec: "{:>+7}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+7}", v[0])), std: |v, o| core::write!(o, "{:>+7}", v[0]) },
    Site { spec: "{:>+7p}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+7p}", v[0])), std: |v, o| core::write!(o, "{:>+7p}", v[0]) },
    Site { spec: "{:>+7(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+7(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:>+7?}", v[0]) },
    Site { spec: "{:>+7(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+7(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:>+7x?}", v[0]) },
    Site { spec: "{:>+7(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+7(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:>+7X?}", v[0]) },
    Site { spec: "{: >+7.2}\t", n: 1, styl: |v, k| stylish::write!(K(k), "{: >+7.2}\t", v[0]), std: |v, o| core::write!(o, "{: >+7.2}\t", v[0]) },
    Site { spec: "{: >+7.2e}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+7.2e}", v[0])), std: |v, o| core::write!(o, "{: >+7.2e}", v[0]) },
    Site { spec: "{: >+7.2?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{", ": >+7.2?}"), v[0])), std: |v, o| core::write!(o, "{: >+7.2?}", v[0]) },
    Site { spec: "{: >+7.2(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+7.2(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: >+7.2x?}", v[0]) },
    Site { spec: "{: >+7.2X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+7.2X?}", v[0])), std: |v, o| core::write!(o, "{: >+7.2X?}", v[0]) },
    Site { spec: "{: >+0}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+0}", v[0])), std: |v, o| core::write!(o, "{: >+0}", v[0]) },
    Site { spec: "{: >+0o}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+0o}", v[0])), std: |v, o| core::write!(o, "{: >+0o}", v[0]) },
    Site { spec: "{: >+0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+0?}", v[0])), std: |v, o| core::write!(o, "{: >+0?}", v[0]) },
    Site { spec: "{: >+0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+0x?}", v[0])), std: |v, o| core::write!(o, "{: >+0x?}", v[0]) },
    Site { spec: "{: >+0(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+0(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: >+0X?}", v[0]) },
    Site { spec: "{:>+0.70(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+0.70(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:>+0.70}", v[0]) },
    Site { spec: "{:>+0.70(bg=blue,bold)E}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+0.70(bg=blue,bold)E}", v[0])), std: |v, o| core::write!(o, "{:>+0.70E}", v[0]) },
    Site { spec: "{:>+0.70?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+0.70?}", v[0])), std: |v, o| core::write!(o, "{:>+0.70?}", v[0]) },
    Site { spec: "{:>+0.70x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+0.70x?}", v[0])), std: |v, o| core::write!(o, "{:>+0.70x?}", v[0]) },
    Site { spec: "{:>+0.70(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+0.70(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:>+0.70X?}", v[0]) },
    Site { spec: "{: >+00}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+00}", v[0])), std: |v, o| core::write!(o, "{: >+00}", v[0]) },
    Site { spec: "{: >+00e}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+00e}", v[0])), std: |v, o| core::write!(o, "{: >+00e}", v[0]) },
    Site { spec: "{: >+00(fg=red)?}\r", n: 1, styl: |v, k| stylish::write!(K(k), "{: >+00(fg=red)?}\r", v[0]), std: |v, o| core::write!(o, "{: >+00?}\r", v[0]) },
    Site { spec: "{: >+00x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+00x?}", v[0])), std: |v, o| core::write!(o, "{: >+00x?}", v[0]) },
    Site { spec: "{: >+00(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+00(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{: >+00X?}", v[0]) },
    Site { spec: "{:>+02.1}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+02.1}", v[0])), std: |v, o| core::write!(o, "{:>+02.1}", v[0]) },
    Site { spec: "{:>+02.1x}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+02.1x}", v[0])), std: |v, o| core::write!(o, "{:>+02.1x}", v[0]) },
    Site { spec: "{:>+02.1?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+02.1?}", v[0])), std: |v, o| core::write!(o, "{:>+02.1?}", v[0]) },
    Site { spec: "{:>+02.1x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+02.1x?}", v[0])), std: |v, o| core::write!(o, "{:>+02.1x?}", v[0]) },
    Site { spec: "{:>+02.1(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+02.1(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:>+02.1X?}", v[0]) },
    Site { spec: "{: >+#(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+#(fg=red)}", v[0])), std: |v, o| core::write!(o, "{: >+#}", v[0]) },
    Site { spec: "{: >+#(fg=red)e}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+#(fg=red)e}", v[0])), std: |v, o| core::write!(o, "{: >+#e}", v[0]) },
    Site { spec: "{: >+#?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+#?}", v[0])), std: |v, o| core::write!(o, "{: >+#?}", v[0]) },
    Site { spec: "{: >+#(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+#(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: >+#x?}", v[0]) },
    Site { spec: "{: >+#X?}", n: 1, styl: |v, k| stylish::write!(K(k), "{: >+#X?}", v[0]), std: |v, o| core::write!(o, "{: >+#X?}", v[0]) },
    Site { spec: "{:>+#.20}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#.20}", v[0])), std: |v, o| core::write!(o, "{:>+#.20}", v[0]) },
    Site { spec: "{:>+#.20E}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#.20E}", v[0])), std: |v, o| core::write!(o, "{:>+#.20E}", v[0]) },
    Site { spec: "{:>+#.20(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#.20(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:>+#.20?}", v[0]) },
    Site { spec: "{:>+#.20x?}\t", n: 1, styl: |v, k| stylish::write!(K(k), "{:>+#.20x?}\t", v[0]), std: |v, o| core::write!(o, "{:>+#.20x?}\t", v[0]) },
    Site { spec: "{:>+#.20X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#.20X?}", v[0])), std: |v, o| core::write!(o, "{:>+#.20X?}", v[0]) },
    Site { spec: "{: >+#300(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+#300(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{: >+#300}", v[0]) },
    Site { spec: "{: >+#300p}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+#300p}", v[0])), std: |v, o| core::write!(o, "{: >+#300p}", v[0]) },
    Site { spec: "{: >+#300?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+#300?}", v[0])), std: |v, o| core::write!(o, "{: >+#300?}", v[0]) },
    Site { spec: "{: >+#300(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >+#300(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: >+#300x?}", v[0]) },
    Site { spec: "{: >+#300X?}", n: 1, styl: |v, k| stylish::write!(K(k), "{: >+#300X?}", v[0]), std: |v, o| core::write!(o, "{: >+#300X?}", v[0]) },
    Site { spec: "{:>+#12.70(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{:>+#12.70(bg=blue,bold)}"), v[0])), std: |v, o| core::write!(o, "{:>+#12.70}", v[0]) },
    Site { spec: "{:>+#12.70(fg=red)X}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#12.70(fg=red)X}", v[0])), std: |v, o| core::write!(o, "{:>+#12.70X}", v[0]) },
    Site { spec: "{:>+#12.70?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#12.70?}", v[0])), std: |v, o| core::write!(o, "{:>+#12.70?}", v[0]) },
    Site { spec: "{:>+#12.70(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#12.70(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{:>+#12.70x?}", v[0]) },
    Site { spec: "{:>+#12.70X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#12.70X?}", v[0])), std: |v, o| core::write!(o, "{:>+#12.70X?}", v[0]) },
    Site { spec: "{:>+#0}", n: 1, styl: |v, k| stylish::write!(K(k), "{:>+#0}", v[0]), std: |v, o| core::write!(o, "{:>+#0}", v[0]) },
    Site { spec: "{:>+#0(fg=red)E}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#0(fg=red)E}", v[0])), std: |v, o| core::write!(o, "{:>+#0E}", v[0]) },
    Site { spec: "{:>+#0(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#0(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{:>+#0?}", v[0]) },
    Site { spec: "{:>+#0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#0x?}", v[0])), std: |v, o| core::write!(o, "{:>+#0x?}", v[0]) },
    Site { spec: "{:>+#0X?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:>+", "#0X?}"), v[0])), std: |v, o| core::write!(o, "{:>+#0X?}", v[0]) },
    Site { spec: "{:>+#0.9}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>+#0.9}", v[0]), std: |v, o| core::writeln!(o, "{:>+#0.9}", v[0]) },
    Site { spec: "{:>+#0.9(bg=blue,bold)o}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#0.9(bg=blue,bold)o}", v[0])), std: |v, o| core::write!(o, "{:>+#0.9o}", v[0]) },
    Site { spec: "{:>+#0.9?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:>", "+#0.9?}"), v[0])), std: |v, o| core::write!(o, "{:>+#0.9?}", v[0]) },
    Site { spec: "{:>+#0.9x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#0.9x?}", v[0])), std: |v, o| core::write!(o, "{:>+#0.9x?}", v[0]) },
    Site { spec: "{:>+#0.9(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#0.9(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:>+#0.9X?}", v[0]) },
    Site { spec: "{:>+#02}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#02}", v[0])), std: |v, o| core::write!(o, "{:>+#02}", v[0]) },
    Site { spec: "{:>+#02o}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:>+#0", "2o}"), v[0])), std: |v, o| core::write!(o, "{:>+#02o}", v[0]) },
    Site { spec: "{:>+#02?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#02?}", v[0])), std: |v, o| core::write!(o, "{:>+#02?}", v[0]) },
    Site { spec: "{:>+#02x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#02x?}", v[0])), std: |v, o| core::write!(o, "{:>+#02x?}", v[0]) },
    Site { spec: "{:>+#02(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#02(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:>+#02X?}", v[0]) },
    Site { spec: "{:>+#05.20}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#05.20}", v[0])), std: |v, o| core::write!(o, "{:>+#05.20}", v[0]) },
    Site { spec: "{:>+#05.20(fg=red)E}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#05.20(fg=red)E}", v[0])), std: |v, o| core::write!(o, "{:>+#05.20E}", v[0]) },
    Site { spec: "{:>+#05.20(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:>+#05.20(bg=blue,bold)", "?}"), v[0])), std: |v, o| core::write!(o, "{:>+#05.20?}", v[0]) },
    Site { spec: "{:>+#05.20x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#05.20x?}", v[0])), std: |v, o| core::write!(o, "{:>+#05.20x?}", v[0]) },
    Site { spec: "{:>+#05.20(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#05.20(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{:>+#05.20X?}", v[0]) },
    Site { spec: "{:>-(fg=red)}", n: 1, styl: |v, k| stylish::write!(K(k), "{:>-(fg=red)}", v[0]), std: |v, o| core::write!(o, "{:>-}", v[0]) },
    Site { spec: "{:>-(fg=red)o}\\", n: 1, styl: |v, k| stylish::write!(K(k), "{:>-(fg=red)o}\\", v[0]), std: |v, o| core::write!(o, "{:>-o}\\", v[0]) },
    Site { spec: "{:>-?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-?}", v[0])), std: |v, o| core::write!(o, "{:>-?}", v[0]) },
    Site { spec: "{:>-x?}\0", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>-x?}\0", v[0]), std: |v, o| core::writeln!(o, "{:>-x?}\0", v[0]) },
    Site { spec: "{:>-(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:>-X?}", v[0]) },
    Site { spec: "{:>-.2}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-.2}", v[0])), std: |v, o| core::write!(o, "{:>-.2}", v[0]) },
    Site { spec: "{:>-.2p}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-.2p}", v[0])), std: |v, o| core::write!(o, "{:>-.2p}", v[0]) },
    Site { spec: "{:>-.2?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>-.2?}", v[0]), std: |v, o| core::writeln!(o, "{:>-.2?}", v[0]) },
    Site { spec: "{:>-.2x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:>-.2", "x?}"), v[0])), std: |v, o| core::write!(o, "{:>-.2x?}", v[0]) },
    Site { spec: "{:>-.2(bg=blue,bold)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-.2(bg=blue,bold)X?}", v[0])), std: |v, o| core::write!(o, "{:>-.2X?}", v[0]) },
    Site { spec: "{: >-0}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-0}", v[0])), std: |v, o| core::write!(o, "{: >-0}", v[0]) },
    Site { spec: "{: >-0(fg=red)E}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-0(fg=red)E}", v[0])), std: |v, o| core::write!(o, "{: >-0E}", v[0]) },
    Site { spec: "{: >-0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-0?}", v[0])), std: |v, o| core::write!(o, "{: >-0?}", v[0]) },
    Site { spec: "{: >-0(fg=red)x?}\0", n: 1, styl: |v, k| stylish::write!(K(k), "{: >-0(fg=red)x?}\0", v[0]), std: |v, o| core::write!(o, "{: >-0x?}\0", v[0]) },
    Site { spec: "{: >-0X?}", n: 1, styl: |v, k| stylish::write!(K(k), "{: >-0X?}", v[0]), std: |v, o| core::write!(o, "{: >-0X?}", v[0]) },
    Site { spec: "{: >-300.9(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-300.9(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{: >-300.9}", v[0]) },
    Site { spec: "{: >-300.9e}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-300.9e}", v[0])), std: |v, o| core::write!(o, "{: >-300.9e}", v[0]) },
    Site { spec: "{: >-300.9(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-300.9(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: >-300.9?}", v[0]) },
    Site { spec: "{: >-300.9x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-300.9x?}", v[0])), std: |v, o| core::write!(o, "{: >-300.9x?}", v[0]) },
    Site { spec: "{: >-300.9X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-300.9X?}", v[0])), std: |v, o| core::write!(o, "{: >-300.9X?}", v[0]) },
    Site { spec: "{:>-0}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-0}", v[0])), std: |v, o| core::write!(o, "{:>-0}", v[0]) },
    Site { spec: "{:>-0(fg=red)E}\0", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>-0(fg=red)E}\0", v[0]), std: |v, o| core::writeln!(o, "{:>-0E}\0", v[0]) },
    Site { spec: "{:>-0?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-0?}", v[0])), std: |v, o| core::write!(o, "{:>-0?}", v[0]) },
    Site { spec: "{:>-0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-0x?}", v[0])), std: |v, o| core::write!(o, "{:>-0x?}", v[0]) },
    Site { spec: "{:>-0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-0X?}", v[0])), std: |v, o| core::write!(o, "{:>-0X?}", v[0]) },
    Site { spec: "{: >-0.4(bg=blue,bold)}\0", n: 1, styl: |v, k| stylish::write!(K(k), "{: >-0.4(bg=blue,bold)}\0", v[0]), std: |v, o| core::write!(o, "{: >-0.4}\0", v[0]) },
    Site { spec: "{: >-0.4(fg=red)x}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-0.4(fg=red)x}", v[0])), std: |v, o| core::write!(o, "{: >-0.4x}", v[0]) },
    Site { spec: "{: >-0.4?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-0.4?}", v[0])), std: |v, o| core::write!(o, "{: >-0.4?}", v[0]) },
    Site { spec: "{: >-0.4x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: >-0.4x", "?}"), v[0])), std: |v, o| core::write!(o, "{: >-0.4x?}", v[0]) },
    Site { spec: "{: >-0.4X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-0.4X?}", v[0])), std: |v, o| core::write!(o, "{: >-0.4X?}", v[0]) },
    Site { spec: "{: >-02(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-02(fg=red)}", v[0])), std: |v, o| core::write!(o, "{: >-02}", v[0]) },
    Site { spec: "{: >-02E}\t", n: 1, styl: |v, k| stylish::write!(K(k), "{: >-02E}\t", v[0]), std: |v, o| core::write!(o, "{: >-02E}\t", v[0]) },
    Site { spec: "{: >-02?}\t", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: >-02?}\t", v[0]), std: |v, o| core::writeln!(o, "{: >-02?}\t", v[0]) },
    Site { spec: "{: >-02(fg=red)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-02(fg=red)x?}", v[0])), std: |v, o| core::write!(o, "{: >-02x?}", v[0]) },
    Site { spec: "{: >-02(fg=red)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-02(fg=red)X?}", v[0])), std: |v, o| core::write!(o, "{: >-02X?}", v[0]) },
    Site { spec: "{: >-07.9} ", n: 1, styl: |v, k| stylish::write!(K(k), "{: >-07.9} ", v[0]), std: |v, o| core::write!(o, "{: >-07.9} ", v[0]) },
    Site { spec: "{: >-07.9(bg=blue,bold)E}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-07.9(bg=blue,bold)E}", v[0])), std: |v, o| core::write!(o, "{: >-07.9E}", v[0]) },
    Site { spec: "{: >-07.9(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-07.9(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: >-07.9?}", v[0]) },
    Site { spec: "{: >-07.9x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-07.9x?}", v[0])), std: |v, o| core::write!(o, "{: >-07.9x?}", v[0]) },
    Site { spec: "{: >-07.9X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-07.9X?}", v[0])), std: |v, o| core::write!(o, "{: >-07.9X?}", v[0]) },
    Site { spec: "{: >-#(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{: >-#(fg=red)}"), v[0])), std: |v, o| core::write!(o, "{: >-#}", v[0]) },
    Site { spec: "{: >-#E}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-#E}", v[0])), std: |v, o| core::write!(o, "{: >-#E}", v[0]) },
    Site { spec: "{: >-#?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{: ", ">-#?}"), v[0])), std: |v, o| core::write!(o, "{: >-#?}", v[0]) },
    Site { spec: "{: >-#(bg=blue,bold)x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-#(bg=blue,bold)x?}", v[0])), std: |v, o| core::write!(o, "{: >-#x?}", v[0]) },
    Site { spec: "{: >-#X?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: >-#X?}", v[0]), std: |v, o| core::writeln!(o, "{: >-#X?}", v[0]) },
    Site { spec: "{:>-#.2}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("", "{:>-#.2}"), v[0])), std: |v, o| core::write!(o, "{:>-#.2}", v[0]) },
    Site { spec: "{:>-#.2(fg=red)o}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#.2(fg=red)o}", v[0])), std: |v, o| core::write!(o, "{:>-#.2o}", v[0]) },
    Site { spec: "{:>-#.2(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#.2(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:>-#.2?}", v[0]) },
    Site { spec: "{:>-#.2x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#.2x?}", v[0])), std: |v, o| core::write!(o, "{:>-#.2x?}", v[0]) },
    Site { spec: "{:>-#.2X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#.2X?}", v[0])), std: |v, o| core::write!(o, "{:>-#.2X?}", v[0]) },
    Site { spec: "{: >-#0}", n: 1, styl: |v, k| stylish::write!(K(k), "{: >-#0}", v[0]), std: |v, o| core::write!(o, "{: >-#0}", v[0]) },
    Site { spec: "{: >-#0(fg=red)e}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-#0(fg=red)e}", v[0])), std: |v, o| core::write!(o, "{: >-#0e}", v[0]) },
    Site { spec: "{: >-#0(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-#0(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: >-#0?}", v[0]) },
    Site { spec: "{: >-#0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-#0x?}", v[0])), std: |v, o| core::write!(o, "{: >-#0x?}", v[0]) },
    Site { spec: "{: >-#0X?}\\", n: 1, styl: |v, k| stylish::write!(K(k), "{: >-#0X?}\\", v[0]), std: |v, o| core::write!(o, "{: >-#0X?}\\", v[0]) },
    Site { spec: "{:>-#0.9(fg=red)}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#0.9(fg=red)}", v[0])), std: |v, o| core::write!(o, "{:>-#0.9}", v[0]) },
    Site { spec: "{:>-#0.9(bg=blue,bold)p}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#0.9(bg=blue,bold)p}", v[0])), std: |v, o| core::write!(o, "{:>-#0.9p}", v[0]) },
    Site { spec: "{:>-#0.9(fg=red)?}\t", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>-#0.9(fg=red)?}\t", v[0]), std: |v, o| core::writeln!(o, "{:>-#0.9?}\t", v[0]) },
    Site { spec: "{:>-#0.9x?}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:>-#0.9x?}", v[0]), std: |v, o| core::writeln!(o, "{:>-#0.9x?}", v[0]) },
    Site { spec: "{:>-#0.9X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#0.9X?}", v[0])), std: |v, o| core::write!(o, "{:>-#0.9X?}", v[0]) },
    Site { spec: "{: >-#0} ", n: 1, styl: |v, k| stylish::writeln!(K(k), "{: >-#0} ", v[0]), std: |v, o| core::writeln!(o, "{: >-#0} ", v[0]) },
    Site { spec: "{: >-#0E}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-#0E}", v[0])), std: |v, o| core::write!(o, "{: >-#0E}", v[0]) },
    Site { spec: "{: >-#0?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-#0?}", v[0])), std: |v, o| core::write!(o, "{: >-#0?}", v[0]) },
    Site { spec: "{: >-#0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-#0x?}", v[0])), std: |v, o| core::write!(o, "{: >-#0x?}", v[0]) },
    Site { spec: "{: >-#0X?}", n: 1, styl: |v, k| stylish::write!(K(k), "{: >-#0X?}", v[0]), std: |v, o| core::write!(o, "{: >-#0X?}", v[0]) },
    Site { spec: "{:>-#0.0(bg=blue,bold)}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#0.0(bg=blue,bold)}", v[0])), std: |v, o| core::write!(o, "{:>-#0.0}", v[0]) },
    Site { spec: "{:>-#0.0(bg=blue,bold)e}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#0.0(bg=blue,bold)e}", v[0])), std: |v, o| core::write!(o, "{:>-#0.0e}", v[0]) },
    Site { spec: "{:>-#0.0?}", n: 1, styl: |v, k| stylish::write!(K(k), "{:>-#0.0?}", v[0]), std: |v, o| core::write!(o, "{:>-#0.0?}", v[0]) },
    Site { spec: "{:>-#0.0x?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#0.0x?}", v[0])), std: |v, o| core::write!(o, "{:>-#0.0x?}", v[0]) },
    Site { spec: "{:>-#0.0X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#0.0X?}", v[0])), std: |v, o| core::write!(o, "{:>-#0.0X?}", v[0]) },
    Site { spec: "{: >-#012}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-#012}", v[0])), std: |v, o| core::write!(o, "{: >-#012}", v[0]) },
    Site { spec: "{: >-#012(bg=blue,bold)p} ", n: 1, styl: |v, k| stylish::write!(K(k), "{: >-#012(bg=blue,bold)p} ", v[0]), std: |v, o| core::write!(o, "{: >-#012p} ", v[0]) },
    Site { spec: "{: >-#012(fg=red)?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-#012(fg=red)?}", v[0])), std: |v, o| core::write!(o, "{: >-#012?}", v[0]) },
    Site { spec: "{: >-#012x?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-#012x?}", v[0])), std: |v, o| core::write!(o, "{: >-#012x?}", v[0]) },
    Site { spec: "{: >-#012X?}", n: 1, styl: |v, k| k(stylish::format_args!("{: >-#012X?}", v[0])), std: |v, o| core::write!(o, "{: >-#012X?}", v[0]) },
    Site { spec: "{:>-#02.1}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#02.1}", v[0])), std: |v, o| core::write!(o, "{:>-#02.1}", v[0]) },
    Site { spec: "{:>-#02.1(bg=blue,bold)p}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#02.1(bg=blue,bold)p}", v[0])), std: |v, o| core::write!(o, "{:>-#02.1p}", v[0]) },
    Site { spec: "{:>-#02.1(bg=blue,bold)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:>-#02.1(bg=blue,bold)?}", v[0])), std: |v, o| core::write!(o, "{:>-#02.1?}", v[0]) },
    Site { spec: "{:>-#02.1(fg=red)x?}", n: 1, styl: |v, k| stylish::write!(K(k), "{:>-#02.1(fg=red)x?}", v[0]), std: |v, o| core::write!(o, "{:>-#02.1x?}", v[0]) },
    Site { spec: "{:>-#02.1X?}}}", n: 1, styl: |v, k| stylish::write!(K(k), "{:>-#02.1X?}}}", v[0]), std: |v, o| core::write!(o, "{:>-#02.1X?}}}", v[0]) },
    Site { spec: "{:+17.128}", n: 1, styl: |v, k| k(stylish::format_args!("{:+17.128}", v[0])), std: |v, o| core::write!(o, "{:+17.128}", v[0]) },
    Site { spec: "{:00.17}", n: 1, styl: |v, k| k(stylish::format_args!("{:00.17}", v[0])), std: |v, o| core::write!(o, "{:00.17}", v[0]) },
    Site { spec: "{:>3.1}", n: 1, styl: |v, k| k(stylish::format_args!("{:>3.1}", v[0])), std: |v, o| core::write!(o, "{:>3.1}", v[0]) },
    Site { spec: "{:<1.1}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<1.1}", v[0]), std: |v, o| core::writeln!(o, "{:<1.1}", v[0]) },
    Site { spec: "{:^0.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:^0.0}", v[0])), std: |v, o| core::write!(o, "{:^0.0}", v[0]) },
    Site { spec: "{:<+01.1}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+01.1}", v[0])), std: |v, o| core::write!(o, "{:<+01.1}", v[0]) },
    Site { spec: "{:<+17.17}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+17.17}", v[0])), std: |v, o| core::write!(o, "{:<+17.17}", v[0]) },
    Site { spec: "{:<+017.0}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<+017.0}", v[0]), std: |v, o| core::writeln!(o, "{:<+017.0}", v[0]) },
    Site { spec: "{:<3.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:<3.0}", v[0])), std: |v, o| core::write!(o, "{:<3.0}", v[0]) },
    Site { spec: "{:<01.128}\\", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<01.128}\\", v[0]), std: |v, o| core::writeln!(o, "{:<01.128}\\", v[0]) },
    Site { spec: "{:^00.128}", n: 1, styl: |v, k| k(stylish::format_args!("{:^00.128}", v[0])), std: |v, o| core::write!(o, "{:^00.128}", v[0]) },
    Site { spec: "{:>01.17}", n: 1, styl: |v, k| k(stylish::format_args!("{:>01.17}", v[0])), std: |v, o| core::write!(o, "{:>01.17}", v[0]) },
    Site { spec: "{:>17.3}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:", ">17.3}"), v[0])), std: |v, o| core::write!(o, "{:>17.3}", v[0]) },
    Site { spec: "{:<+3.17}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+3.17}", v[0])), std: |v, o| core::write!(o, "{:<+3.17}", v[0]) },
    Site { spec: "{:>+03.17}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+03.17}", v[0])), std: |v, o| core::write!(o, "{:>+03.17}", v[0]) },
    Site { spec: "{:>+03.3}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+03.3}", v[0])), std: |v, o| core::write!(o, "{:>+03.3}", v[0]) },
    Site { spec: "{:>+00.3}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:>+", "00.3}"), v[0])), std: |v, o| core::write!(o, "{:>+00.3}", v[0]) },
    Site { spec: "{:03.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:03.0}", v[0])), std: |v, o| core::write!(o, "{:03.0}", v[0]) },
    Site { spec: "{:<17.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:<17.0}", v[0])), std: |v, o| core::write!(o, "{:<17.0}", v[0]) },
    Site { spec: "{:<+01.1}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+01.1}", v[0])), std: |v, o| core::write!(o, "{:<+01.1}", v[0]) },
    Site { spec: "{:<+01.3}", n: 1, styl: |v, k| stylish::write!(K(k), "{:<+01.3}", v[0]), std: |v, o| core::write!(o, "{:<+01.3}", v[0]) },
    Site { spec: "{:^01.1}", n: 1, styl: |v, k| k(stylish::format_args!("{:^01.1}", v[0])), std: |v, o| core::write!(o, "{:^01.1}", v[0]) },
    Site { spec: "{:010.1}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:010.", "1}"), v[0])), std: |v, o| core::write!(o, "{:010.1}", v[0]) },
    Site { spec: "{:+03.3}", n: 1, styl: |v, k| k(stylish::format_args!("{:+03.3}", v[0])), std: |v, o| core::write!(o, "{:+03.3}", v[0]) },
    Site { spec: "{:<17.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:<17.0}", v[0])), std: |v, o| core::write!(o, "{:<17.0}", v[0]) },
    Site { spec: "{:<+128.128}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+128.128}", v[0])), std: |v, o| core::write!(o, "{:<+128.128}", v[0]) },
    Site { spec: "{:>017.0}", n: 1, styl: |v, k| stylish::write!(K(k), "{:>017.0}", v[0]), std: |v, o| core::write!(o, "{:>017.0}", v[0]) },
    Site { spec: "{:<+00.128}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+00.128}", v[0])), std: |v, o| core::write!(o, "{:<+00.128}", v[0]) },
    Site { spec: "{:<17.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:<17.0}", v[0])), std: |v, o| core::write!(o, "{:<17.0}", v[0]) },
    Site { spec: "{:<017.3}", n: 1, styl: |v, k| k(stylish::format_args!("{:<017.3}", v[0])), std: |v, o| core::write!(o, "{:<017.3}", v[0]) },
    Site { spec: "{:<+0.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+0.0}", v[0])), std: |v, o| core::write!(o, "{:<+0.0}", v[0]) },
    Site { spec: "{:>+0128.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+0128.0}", v[0])), std: |v, o| core::write!(o, "{:>+0128.0}", v[0]) },
    Site { spec: "{:>+128.0}\\", n: 1, styl: |v, k| stylish::write!(K(k), "{:>+128.0}\\", v[0]), std: |v, o| core::write!(o, "{:>+128.0}\\", v[0]) },
    Site { spec: "{:>+17.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+17.0}", v[0])), std: |v, o| core::write!(o, "{:>+17.0}", v[0]) },
    Site { spec: "{:+0128.3}", n: 1, styl: |v, k| k(stylish::format_args!("{:+0128.3}", v[0])), std: |v, o| core::write!(o, "{:+0128.3}", v[0]) },
    Site { spec: "{:>3.17}", n: 1, styl: |v, k| k(stylish::format_args!("{:>3.17}", v[0])), std: |v, o| core::write!(o, "{:>3.17}", v[0]) },
    Site { spec: "{:<+017.0}\0", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:<+017.0}\0", v[0]), std: |v, o| core::writeln!(o, "{:<+017.0}\0", v[0]) },
    Site { spec: "{:<+00.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+00.0}", v[0])), std: |v, o| core::write!(o, "{:<+00.0}", v[0]) },
    Site { spec: "{:<03.3}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:<03.3", "}"), v[0])), std: |v, o| core::write!(o, "{:<03.3}", v[0]) },
    Site { spec: "{:+017.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:+017.0}", v[0])), std: |v, o| core::write!(o, "{:+017.0}", v[0]) },
    Site { spec: "{:+010.17}", n: 1, styl: |v, k| k(stylish::format_args!("{:+010.17}", v[0])), std: |v, o| core::write!(o, "{:+010.17}", v[0]) },
    Site { spec: "{:>+0.17}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+0.17}", v[0])), std: |v, o| core::write!(o, "{:>+0.17}", v[0]) },
    Site { spec: "{:<1.17}", n: 1, styl: |v, k| k(stylish::format_args!("{:<1.17}", v[0])), std: |v, o| core::write!(o, "{:<1.17}", v[0]) },
    Site { spec: "{:>00.128}", n: 1, styl: |v, k| k(stylish::format_args!("{:>00.128}", v[0])), std: |v, o| core::write!(o, "{:>00.128}", v[0]) },
    Site { spec: "{:<0128.128}", n: 1, styl: |v, k| k(stylish::format_args!("{:<0128.128}", v[0])), std: |v, o| core::write!(o, "{:<0128.128}", v[0]) },
    Site { spec: "{:00.3}", n: 1, styl: |v, k| k(stylish::format_args!("{:00.3}", v[0])), std: |v, o| core::write!(o, "{:00.3}", v[0]) },
    Site { spec: "{:>017.17}", n: 1, styl: |v, k| k(stylish::format_args!("{:>017.17}", v[0])), std: |v, o| core::write!(o, "{:>017.17}", v[0]) },
    Site { spec: "{:^0128.17}", n: 1, styl: |v, k| k(stylish::format_args!("{:^0128.17}", v[0])), std: |v, o| core::write!(o, "{:^0128.17}", v[0]) },
    Site { spec: "{:3.128}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:3.1", "28}"), v[0])), std: |v, o| core::write!(o, "{:3.128}", v[0]) },
    Site { spec: "{:^+010.1}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+010.1}", v[0])), std: |v, o| core::write!(o, "{:^+010.1}", v[0]) },
    Site { spec: "{:<3.1}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:<3.1}", ""), v[0])), std: |v, o| core::write!(o, "{:<3.1}", v[0]) },
    Site { spec: "{:>010.0}\\", n: 1, styl: |v, k| stylish::write!(K(k), "{:>010.0}\\", v[0]), std: |v, o| core::write!(o, "{:>010.0}\\", v[0]) },
    Site { spec: "{:<+0128.128}", n: 1, styl: |v, k| k(stylish::format_args!("{:<+0128.128}", v[0])), std: |v, o| core::write!(o, "{:<+0128.128}", v[0]) },
    Site { spec: "{:03.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:03.0}", v[0])), std: |v, o| core::write!(o, "{:03.0}", v[0]) },
    Site { spec: "{:03.3}\n", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:03.3}\n", v[0]), std: |v, o| core::writeln!(o, "{:03.3}\n", v[0]) },
    Site { spec: "{:03.0}", n: 1, styl: |v, k| stylish::writeln!(K(k), "{:03.0}", v[0]), std: |v, o| core::writeln!(o, "{:03.0}", v[0]) },
    Site { spec: "{:>017.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:>017.0}", v[0])), std: |v, o| core::write!(o, "{:>017.0}", v[0]) },
    Site { spec: "{:<010.0}", n: 1, styl: |v, k| k(stylish::format_args!("{:<010.0}", v[0])), std: |v, o| core::write!(o, "{:<010.0}", v[0]) },
    Site { spec: "{:>010.3}", n: 1, styl: |v, k| k(stylish::format_args!("{:>010.3}", v[0])), std: |v, o| core::write!(o, "{:>010.3}", v[0]) },
    Site { spec: "{:^010.128}", n: 1, styl: |v, k| k(stylish::format_args!("{:^010.128}", v[0])), std: |v, o| core::write!(o, "{:^010.128}", v[0]) },
    Site { spec: "{0: >-0.4x}<b>{1:^+20.4x?}[{0:<-p}<!-- -->{0:#07(fg=green)X?}\0", n: 2, styl: |v, k| k(stylish::format_args!("{0: >-0.4x}<b>{1:^+20.4x?}[{0:<-p}<!-- -->{0:#07(fg=green)X?}\0", v[0], v[1])), std: |v, o| core::write!(o, "{0: >-0.4x}<b>{1:^+20.4x?}[{0:<-p}<!-- -->{0:#07X?}\0", v[0], v[1]) },
    Site { spec: "}}{:-0(fg=green)}{:<+00.20?}: {:<-#01.0(fg=green)?}%%{:07.9e}", n: 4, styl: |v, k| k(stylish::format_args!("}}{:-0(fg=green)}{:<+00.20?}: {:<-#01.0(fg=green)?}%%{:07.9e}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "}}{:-0}{:<+00.20?}: {:<-#01.0?}%%{:07.9e}", v[0], v[1], v[2], v[3]) },
    Site { spec: "\0{d: ^+#0(fg=green)x?}\\{d:07.9?}\"{a: ^+(fg=green)?}{b:^+#02X?}a{{b}}c{c:>07.9(faint)?}$0}}", n: 4, styl: |v, k| stylish::writeln!(K(k), "\0{d: ^+#0(fg=green)x?}\\{d:07.9?}\"{a: ^+(fg=green)?}{b:^+#02X?}a{{b}}c{c:>07.9(faint)?}$0}}", a=v[0], b=v[1], c=v[2], d=v[3]), std: |v, o| core::writeln!(o, "\0{d: ^+#0x?}\\{d:07.9?}\"{a: ^+?}{b:^+#02X?}a{{b}}c{c:>07.9?}$0}}", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "'q'{1:-.9}é{0:-.9b}#;{0: ^+#0.9x?}''{1:>-#.2(fg=green)}{{", n: 2, styl: |v, k| k(stylish::format_args!("'q'{1:-.9}é{0:-.9b}#;{0: ^+#0.9x?}''{1:>-#.2(fg=green)}{{", v[0], v[1])), std: |v, o| core::write!(o, "'q'{1:-.9}é{0:-.9b}#;{0: ^+#0.9x?}''{1:>-#.2}{{", v[0], v[1]) },
    Site { spec: "\r{:>.4E}{:>0.9(fg=green)?}{: ^-#0(faint)?}", n: 3, styl: |v, k| k(stylish::format_args!("\r{:>.4E}{:>0.9(fg=green)?}{: ^-#0(faint)?}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "\r{:>.4E}{:>0.9?}{: ^-#0?}", v[0], v[1], v[2]) },
    Site { spec: "{a:-05.70}{a:^0(fg=green)x}\u{feff}{b:<#20?}{b:-.9(fg=green)X?}", n: 2, styl: |v, k| k(stylish::format_args!("{a:-05.70}{a:^0(fg=green)x}\u{feff}{b:<#20?}{b:-.9(fg=green)X?}", a=v[0], b=v[1])), std: |v, o| core::write!(o, "{a:-05.70}{a:^0x}\u{feff}{b:<#20?}{b:-.9X?}", a=v[0], b=v[1]) },
    Site { spec: "{{}}{a:>#00.0(faint)?}\u{feff}{b:0.0(faint)?}|{b:<-#(fg=green)?}<!-- -->", n: 2, styl: |v, k| k(stylish::format_args!("{{}}{a:>#00.0(faint)?}\u{feff}{b:0.0(faint)?}|{b:<-#(fg=green)?}<!-- -->", a=v[0], b=v[1])), std: |v, o| core::write!(o, "{{}}{a:>#00.0?}\u{feff}{b:0.0?}|{b:<-#?}<!-- -->", a=v[0], b=v[1]) },
    Site { spec: "\n\n{a: <+12(fg=green)?}é{a:+0x?}{a:-020(fg=green)X?}#;", n: 1, styl: |v, k| k(stylish::format_args!("\n\n{a: <+12(fg=green)?}é{a:+0x?}{a:-020(fg=green)X?}#;", a=v[0])), std: |v, o| core::write!(o, "\n\n{a: <+12?}é{a:+0x?}{a:-020X?}#;", a=v[0]) },
    Site { spec: "  {a:>+#02(fg=green)x?}", n: 1, styl: |v, k| k(stylish::format_args!("  {a:>+#02(fg=green)x?}", a=v[0])), std: |v, o| core::write!(o, "  {a:>+#02x?}", a=v[0]) },
    Site { spec: "{1:^-#X?}{1:>+0.70E} - {1:<-#1X?}{0:+0(faint)X?}", n: 2, styl: |v, k| k(stylish::format_args!("{1:^-#X?}{1:>+0.70E} - {1:<-#1X?}{0:+0(faint)X?}", v[0], v[1])), std: |v, o| core::write!(o, "{1:^-#X?}{1:>+0.70E} - {1:<-#1X?}{0:+0X?}", v[0], v[1]) },
    Site { spec: "{1:<+.0X?}}}{2: >-#?}x{0:-#00?}: ", n: 3, styl: |v, k| k(stylish::format_args!("{1:<+.0X?}}}{2: >-#?}x{0:-#00?}: ", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{1:<+.0X?}}}{2: >-#?}x{0:-#00?}: ", v[0], v[1], v[2]) },
    Site { spec: "%%{0:<+#0x?}[{0: <-02.4}\n\n{0:>-(faint)o}$0", n: 1, styl: |v, k| k(stylish::format_args!(concat!("%%{0:<+#0x?}[{0: <-02.4}\n\n{0:>-", "(faint)o}$0"), v[0])), std: |v, o| core::write!(o, "%%{0:<+#0x?}[{0: <-02.4}\n\n{0:>-o}$0", v[0]) },
    Site { spec: "{0:^(fg=green)X?}  {3:^-#(fg=green)?}]{1:>+02.1(fg=green)x?}{2: >#12.0(faint)?}{2:<+#0(faint)p} - {2:>+7(fg=green)}[", n: 4, styl: |v, k| k(stylish::format_args!("{0:^(fg=green)X?}  {3:^-#(fg=green)?}]{1:>+02.1(fg=green)x?}{2: >#12.0(faint)?}{2:<+#0(faint)p} - {2:>+7(fg=green)}[", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{0:^X?}  {3:^-#?}]{1:>+02.1x?}{2: >#12.0?}{2:<+#0p} - {2:>+7}[", v[0], v[1], v[2], v[3]) },
    Site { spec: "{c:#0.0(fg=green)x}\\{a:^+66(fg=green)x?}''{d:<-#01.0?}{b: ^-2.1(fg=green)x?}: {c:>-0X?}", n: 4, styl: |v, k| k(stylish::format_args!("{c:#0.0(fg=green)x}\\{a:^+66(fg=green)x?}''{d:<-#01.0?}{b: ^-2.1(fg=green)x?}: {c:>-0X?}", a=v[0], b=v[1], c=v[2], d=v[3])), std: |v, o| core::write!(o, "{c:#0.0x}\\{a:^+66x?}''{d:<-#01.0?}{b: ^-2.1x?}: {c:>-0X?}", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "|{: >-300.9(faint)}\n{: >-0.4(faint)?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{:<-#X}", n: 3, styl: |v, k| k(stylish::format_args!("|{: >-300.9(faint)}\n{: >-0.4(faint)?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{:<-#X}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "|{: >-300.9}\n{: >-0.4?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{:<-#X}", v[0], v[1], v[2]) },
    Site { spec: "\n{:#00.1(faint)}a{{b}}c{0:^-?}{:+5(faint)}m0;1{1:<.70(fg=green)X?}{{", n: 2, styl: |v, k| k(stylish::format_args!("\n{:#00.1(faint)}a{{b}}c{0:^-?}{:+5(faint)}m0;1{1:<.70(fg=green)X?}{{", v[0], v[1])), std: |v, o| core::write!(o, "\n{:#00.1}a{{b}}c{0:^-?}{:+5}m0;1{1:<.70X?}{{", v[0], v[1]) },
    Site { spec: "<b>{0:>-0x?}<b>{0:^#02?}\"{: >#0x?}{0: ^05.9?}{0:^#02(fg=green)?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("<", "b>{0:>-0x?}<b>{0:^#02?}\"{: >#0x?}{0: ^05.9?}{0:^#02(fg=green)?}"), v[0])), std: |v, o| core::write!(o, "<b>{0:>-0x?}<b>{0:^#02?}\"{: >#0x?}{0: ^05.9?}{0:^#02?}", v[0]) },
    Site { spec: "{a: <-02.4(fg=green)x}{a: >-300.9}{a:-020(fg=green)?}", n: 1, styl: |v, k| k(stylish::format_args!("{a: <-02.4(fg=green)x}{a: >-300.9}{a:-020(fg=green)?}", a=v[0])), std: |v, o| core::write!(o, "{a: <-02.4x}{a: >-300.9}{a:-020?}", a=v[0]) },
    Site { spec: ": {:<+00.20(faint)}{:>-0(fg=green)E}{:<-#0x?}　{:^#02(fg=green)}''", n: 4, styl: |v, k| stylish::write!(K(k), ": {:<+00.20(faint)}{:>-0(fg=green)E}{:<-#0x?}　{:^#02(fg=green)}''", v[0], v[1], v[2], v[3]), std: |v, o| core::write!(o, ": {:<+00.20}{:>-0E}{:<-#0x?}　{:^#02}''", v[0], v[1], v[2], v[3]) },
    Site { spec: "<!-- -->{0: ^+#2.0}{{{1: <#0.0X?}{2:07.9(faint)e}{2:<-0(faint)}m0;1{2: <+0.0(fg=green)b}", n: 3, styl: |v, k| k(stylish::format_args!("<!-- -->{0: ^+#2.0}{{{1: <#0.0X?}{2:07.9(faint)e}{2:<-0(faint)}m0;1{2: <+0.0(fg=green)b}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "<!-- -->{0: ^+#2.0}{{{1: <#0.0X?}{2:07.9e}{2:<-0}m0;1{2: <+0.0b}", v[0], v[1], v[2]) },
    Site { spec: "x{c:^+20.4(faint)?}: {b:+#0.9(fg=green)?}{a:>#066X?}", n: 3, styl: |v, k| k(stylish::format_args!("x{c:^+20.4(faint)?}: {b:+#0.9(fg=green)?}{a:>#066X?}", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "x{c:^+20.4?}: {b:+#0.9?}{a:>#066X?}", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "{1: >#0.0(fg=green)}{0:+2.70x?}}}", n: 2, styl: |v, k| k(stylish::format_args!("{1: >#0.0(fg=green)}{0:+2.70x?}}}", v[0], v[1])), std: |v, o| core::write!(o, "{1: >#0.0}{0:+2.70x?}}}", v[0], v[1]) },
    Site { spec: "\r{d:+02.0?}<b>{d: ^-#0.20o}\r{a: ^#1}é{c: ^-#0(fg=green)b}{b:>-#.2(fg=green)?}[{c:-05.70x?}", n: 4, styl: |v, k| k(stylish::format_args!("\r{d:+02.0?}<b>{d: ^-#0.20o}\r{a: ^#1}é{c: ^-#0(fg=green)b}{b:>-#.2(fg=green)?}[{c:-05.70x?}", a=v[0], b=v[1], c=v[2], d=v[3])), std: |v, o| core::write!(o, "\r{d:+02.0?}<b>{d: ^-#0.20o}\r{a: ^#1}é{c: ^-#0b}{b:>-#.2?}[{c:-05.70x?}", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "&amp;{3:^-#01.70(faint)}{0:^#0300.4}{1:<-#X?}{:^#02o} - {2:^+05(fg=green)x?}{1:^.20(faint)}<b>{: ^-066(fg=green)?}<!-- -->{:00(fg=green)}", n: 4, styl: |v, k| k(stylish::format_args!("&amp;{3:^-#01.70(faint)}{0:^#0300.4}{1:<-#X?}{:^#02o} - {2:^+05(fg=green)x?}{1:^.20(faint)}<b>{: ^-066(fg=green)?}<!-- -->{:00(fg=green)}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "&amp;{3:^-#01.70}{0:^#0300.4}{1:<-#X?}{:^#02o} - {2:^+05x?}{1:^.20}<b>{: ^-066?}<!-- -->{:00}", v[0], v[1], v[2], v[3]) },
    Site { spec: "{:>+#.20X?}\\n{: ^-00.70X?}<!-- -->{:-#E}", n: 3, styl: |v, k| k(stylish::format_args!("{:>+#.20X?}\\n{: ^-00.70X?}<!-- -->{:-#E}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{:>+#.20X?}\\n{: ^-00.70X?}<!-- -->{:-#E}", v[0], v[1], v[2]) },
    Site { spec: "\n{a:<-(faint)} - {b:#300.9(faint)X?}|", n: 2, styl: |v, k| k(stylish::format_args!("\n{a:<-(faint)} - {b:#300.9(faint)X?}|", a=v[0], b=v[1])), std: |v, o| core::write!(o, "\n{a:<-} - {b:#300.9X?}|", a=v[0], b=v[1]) },
    Site { spec: "é{0:-#0.4(fg=green)}\r{:-(faint)e}<b>{1:-05.70(faint)x?}\r\n{1:<#.2(fg=green)}", n: 2, styl: |v, k| stylish::writeln!(K(k), "é{0:-#0.4(fg=green)}\r{:-(faint)e}<b>{1:-05.70(faint)x?}\r\n{1:<#.2(fg=green)}", v[0], v[1]), std: |v, o| core::writeln!(o, "é{0:-#0.4}\r{:-e}<b>{1:-05.70x?}\r\n{1:<#.2}", v[0], v[1]) },
    Site { spec: "%%{:<#.2x?}<!-- -->{0:<+#0p}", n: 1, styl: |v, k| k(stylish::format_args!("%%{:<#.2x?}<!-- -->{0:<+#0p}", v[0])), std: |v, o| core::write!(o, "%%{:<#.2x?}<!-- -->{0:<+#0p}", v[0]) },
    Site { spec: "$0{a:300(fg=green)X?}\n", n: 1, styl: |v, k| stylish::writeln!(K(k), "$0{a:300(fg=green)X?}\n", a=v[0]), std: |v, o| core::writeln!(o, "$0{a:300X?}\n", a=v[0]) },
    Site { spec: "{: ^+0(fg=green)x?}m0;1{0: <-0.70X?}  {0:-#300}é{0:>+7p}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^+0(fg=green)x?}m0;1{0: <-0.70X?}  {0:-#300}é{0:>+7p}", v[0])), std: |v, o| core::write!(o, "{: ^+0x?}m0;1{0: <-0.70X?}  {0:-#300}é{0:>+7p}", v[0]) },
    Site { spec: "\\n{: ^-#.2?} - \t", n: 1, styl: |v, k| stylish::write!(K(k), "\\n{: ^-#.2?} - \t", v[0]), std: |v, o| core::write!(o, "\\n{: ^-#.2?} - \t", v[0]) },
    Site { spec: "{2: ^-#2.2?}{3:<+#0(faint)}a{{b}}c{1:>+02.1?}#;{0: <-1.70X?}", n: 4, styl: |v, k| stylish::writeln!(K(k), "{2: ^-#2.2?}{3:<+#0(faint)}a{{b}}c{1:>+02.1?}#;{0: <-1.70X?}", v[0], v[1], v[2], v[3]), std: |v, o| core::writeln!(o, "{2: ^-#2.2?}{3:<+#0}a{{b}}c{1:>+02.1?}#;{0: <-1.70X?}", v[0], v[1], v[2], v[3]) },
    Site { spec: "}}{a:<-p}\0", n: 1, styl: |v, k| k(stylish::format_args!("}}{a:<-p}\0", a=v[0])), std: |v, o| core::write!(o, "}}{a:<-p}\0", a=v[0]) },
    Site { spec: "1:{0: <7.0X?}{1:<+#0(fg=green)}\r{1:^-#01(faint)X?}\n\n{1:<05(fg=green)X?}&{2:<-#}", n: 3, styl: |v, k| stylish::write!(K(k), "1:{0: <7.0X?}{1:<+#0(fg=green)}\r{1:^-#01(faint)X?}\n\n{1:<05(fg=green)X?}&{2:<-#}", v[0], v[1], v[2]), std: |v, o| core::write!(o, "1:{0: <7.0X?}{1:<+#0}\r{1:^-#01X?}\n\n{1:<05X?}&{2:<-#}", v[0], v[1], v[2]) },
    Site { spec: "{0:^#02(faint)?}{: ^-12(faint)x?}{0:<00.2(fg=green)x?}\t{0: <+#b}é{0:-.9x?}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{0:^#02(faint)?}{: ^-12(faint)x?}{0:<00.2(fg=green", ")x?}\t{0: <+#b}é{0:-.9x?}"), v[0])), std: |v, o| core::write!(o, "{0:^#02?}{: ^-12x?}{0:<00.2x?}\t{0: <+#b}é{0:-.9x?}", v[0]) },
    Site { spec: "|{0:+#0.9?}{:^+66(fg=green)}{0:+#5.9(fg=green)}&amp;{0:0(fg=green)E}{{}}{0:^(fg=green)b}&amp;", n: 1, styl: |v, k| k(stylish::format_args!("|{0:+#0.9?}{:^+66(fg=green)}{0:+#5.9(fg=green)}&amp;{0:0(fg=green)E}{{}}{0:^(fg=green)b}&amp;", v[0])), std: |v, o| core::write!(o, "|{0:+#0.9?}{:^+66}{0:+#5.9}&amp;{0:0E}{{}}{0:^b}&amp;", v[0]) },
    Site { spec: "\n\n{1:-#0(fg=green)?}{{}}{0:>.4X?}\"{1:<+00.20X?}#;", n: 2, styl: |v, k| k(stylish::format_args!("\n\n{1:-#0(fg=green)?}{{}}{0:>.4X?}\"{1:<+00.20X?}#;", v[0], v[1])), std: |v, o| core::write!(o, "\n\n{1:-#0?}{{}}{0:>.4X?}\"{1:<+00.20X?}#;", v[0], v[1]) },
    Site { spec: "{0:-0.20(fg=green)X?}{1: ^07?}\0{1: >#0(faint)b}\n\n{:>020x?}a{{b}}c{1:>#00.0X?}{1: ^-#0(fg=green)X?}] ", n: 2, styl: |v, k| stylish::write!(K(k), "{0:-0.20(fg=green)X?}{1: ^07?}\0{1: >#0(faint)b}\n\n{:>020x?}a{{b}}c{1:>#00.0X?}{1: ^-#0(fg=green)X?}] ", v[0], v[1]), std: |v, o| core::write!(o, "{0:-0.20X?}{1: ^07?}\0{1: >#0b}\n\n{:>020x?}a{{b}}c{1:>#00.0X?}{1: ^-#0X?}] ", v[0], v[1]) },
    Site { spec: "\"{0: >#0(fg=green)?}: {: >#0(fg=green)X?}{0:-(fg=green)?}", n: 1, styl: |v, k| k(stylish::format_args!("\"{0: >#0(fg=green)?}: {: >#0(fg=green)X?}{0:-(fg=green)?}", v[0])), std: |v, o| core::write!(o, "\"{0: >#0?}: {: >#0X?}{0:-?}", v[0]) },
    Site { spec: "{1:#.4(faint)x?}|{1:-5(faint)X}{: <+#0.20?}{1: ^-#.2(faint)x}'q'{0:<+02?}: {1:>1(fg=green)b}", n: 2, styl: |v, k| k(stylish::format_args!("{1:#.4(faint)x?}|{1:-5(faint)X}{: <+#0.20?}{1: ^-#.2(faint)x}'q'{0:<+02?}: {1:>1(fg=green)b}", v[0], v[1])), std: |v, o| core::write!(o, "{1:#.4x?}|{1:-5X}{: <+#0.20?}{1: ^-#.2x}'q'{0:<+02?}: {1:>1b}", v[0], v[1]) },
    Site { spec: "{:^0?}\t{0:>-(faint)?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^0?}\t{0:>-(faint)?}", v[0])), std: |v, o| core::write!(o, "{:^0?}\t{0:>-?}", v[0]) },
    Site { spec: "{0:+#X?}  {2:12.9(fg=green)x?}#;{0:12.9x?}\n{2:+#2(fg=green)?}{1: <-300?}\t", n: 3, styl: |v, k| k(stylish::format_args!("{0:+#X?}  {2:12.9(fg=green)x?}#;{0:12.9x?}\n{2:+#2(fg=green)?}{1: <-300?}\t", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{0:+#X?}  {2:12.9x?}#;{0:12.9x?}\n{2:+#2?}{1: <-300?}\t", v[0], v[1], v[2]) },
    Site { spec: "\\{:-#0.4(fg=green)E}{: >-07.9}<!-- -->{:<+#02e}\\{: >+x?}m0;1", n: 4, styl: |v, k| k(stylish::format_args!("\\{:-#0.4(fg=green)E}{: >-07.9}<!-- -->{:<+#02e}\\{: >+x?}m0;1", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "\\{:-#0.4E}{: >-07.9}<!-- -->{:<+#02e}\\{: >+x?}m0;1", v[0], v[1], v[2], v[3]) },
    Site { spec: "{b: ^-#2.2(fg=green)p}<!-- -->{a:>#066}[{c:0(fg=green)?}]", n: 3, styl: |v, k| k(stylish::format_args!(concat!("{b: ^-#2.2(fg=gr", "een)p}<!-- -->{a:>#066}[{c:0(fg=green)?}]"), a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "{b: ^-#2.2p}<!-- -->{a:>#066}[{c:0?}]", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "{:#00.1x}{:<-#(faint)X?}\\n", n: 2, styl: |v, k| k(stylish::format_args!("{:#00.1x}{:<-#(faint)X?}\\n", v[0], v[1])), std: |v, o| core::write!(o, "{:#00.1x}{:<-#X?}\\n", v[0], v[1]) },
    Site { spec: "[{3: <+#0.20?}%%{1:<-#0X}{0:^7.70}&amp;{2:>}: {3:>-#0.0X?}", n: 4, styl: |v, k| stylish::write!(K(k), "[{3: <+#0.20?}%%{1:<-#0X}{0:^7.70}&amp;{2:>}: {3:>-#0.0X?}", v[0], v[1], v[2], v[3]), std: |v, o| core::write!(o, "[{3: <+#0.20?}%%{1:<-#0X}{0:^7.70}&amp;{2:>}: {3:>-#0.0X?}", v[0], v[1], v[2], v[3]) },
    Site { spec: "1:{a: >-0(faint)x?}é{a:>+7p}\\{a:-#300(fg=green)?}", n: 1, styl: |v, k| k(stylish::format_args!("1:{a: >-0(faint)x?}é{a:>+7p}\\{a:-#300(fg=green)?}", a=v[0])), std: |v, o| core::write!(o, "1:{a: >-0x?}é{a:>+7p}\\{a:-#300?}", a=v[0]) },
    Site { spec: "{c:+#(faint)?}{a:>X?}{b:-.9X?}{d: ^+#0.9(fg=green)?}\r\n", n: 4, styl: |v, k| stylish::writeln!(K(k), "{c:+#(faint)?}{a:>X?}{b:-.9X?}{d: ^+#0.9(fg=green)?}\r\n", a=v[0], b=v[1], c=v[2], d=v[3]), std: |v, o| core::writeln!(o, "{c:+#?}{a:>X?}{b:-.9X?}{d: ^+#0.9?}\r\n", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "{1: >-#}{2:#300.9?}é{3:<.70(faint)X?}{0:+#x?}a{{b}}c", n: 4, styl: |v, k| k(stylish::format_args!("{1: >-#}{2:#300.9?}é{3:<.70(faint)X?}{0:+#x?}a{{b}}c", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{1: >-#}{2:#300.9?}é{3:<.70X?}{0:+#x?}a{{b}}c", v[0], v[1], v[2], v[3]) },
    Site { spec: "\u{feff}{: >+#300x?}{:#07X?}<b>{:>+7X?}\n{:<#20(fg=green)p}", n: 4, styl: |v, k| k(stylish::format_args!("\u{feff}{: >+#300x?}{:#07X?}<b>{:>+7X?}\n{:<#20(fg=green)p}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "\u{feff}{: >+#300x?}{:#07X?}<b>{:>+7X?}\n{:<#20p}", v[0], v[1], v[2], v[3]) },
    Site { spec: "{:>+7X?}0123456789012345678901234567890123456789012345678901234567890123456789{: >+7.2}{: <+0.0X?}\r", n: 3, styl: |v, k| k(stylish::format_args!("{:>+7X?}0123456789012345678901234567890123456789012345678901234567890123456789{: >+7.2}{: <+0.0X?}\r", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{:>+7X?}0123456789012345678901234567890123456789012345678901234567890123456789{: >+7.2}{: <+0.0X?}\r", v[0], v[1], v[2]) },
    Site { spec: "#;{a: <-020(fg=green)}: {d: <-0.70?}{b: ^-0.4(fg=green)X}a{{b}}c{c:>020X?}", n: 4, styl: |v, k| k(stylish::format_args!(concat!("#", ";{a: <-020(fg=green)}: {d: <-0.70?}{b: ^-0.4(fg=green)X}a{{b}}c{c:>020X?}"), a=v[0], b=v[1], c=v[2], d=v[3])), std: |v, o| core::write!(o, "#;{a: <-020}: {d: <-0.70?}{b: ^-0.4X}a{{b}}c{c:>020X?}", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "{a: >#X}", n: 1, styl: |v, k| k(stylish::format_args!("{a: >#X}", a=v[0])), std: |v, o| core::write!(o, "{a: >#X}", a=v[0]) },
    Site { spec: "{: <#300.70(fg=green)x?}\n{:^-#01(fg=green)}", n: 2, styl: |v, k| k(stylish::format_args!("{: <#300.70(fg=green)x?}\n{:^-#01(fg=green)}", v[0], v[1])), std: |v, o| core::write!(o, "{: <#300.70x?}\n{:^-#01}", v[0], v[1]) },
    Site { spec: "]{:>07.9x?}#;{3:<+#02X?}{2: >-#0X?}&{1:<#20(fg=green)}x{2:+02.0?}", n: 4, styl: |v, k| k(stylish::format_args!("]{:>07.9x?}#;{3:<+#02X?}{2: >-#0X?}&{1:<#20(fg=green)}x{2:+02.0?}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "]{:>07.9x?}#;{3:<+#02X?}{2: >-#0X?}&{1:<#20}x{2:+02.0?}", v[0], v[1], v[2], v[3]) },
    Site { spec: "{: <-#0300(faint)}{:>-(fg=green)?}{:<00.2(fg=green)p}\n\n", n: 3, styl: |v, k| k(stylish::format_args!("{: <-#0300(faint)}{:>-(fg=green)?}{:<00.2(fg=green)p}\n\n", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{: <-#0300}{:>-?}{:<00.2p}\n\n", v[0], v[1], v[2]) },
    Site { spec: "{: ^+0?}{0: ^-#0.20?}{3: <0}\n\n{3:300(fg=green)o}\n{: >#0E}{2: >-#?}{1:<+66.9e}\r", n: 4, styl: |v, k| k(stylish::format_args!("{: ^+0?}{0: ^-#0.20?}{3: <0}\n\n{3:300(fg=green)o}\n{: >#0E}{2: >-#?}{1:<+66.9e}\r", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{: ^+0?}{0: ^-#0.20?}{3: <0}\n\n{3:300o}\n{: >#0E}{2: >-#?}{1:<+66.9e}\r", v[0], v[1], v[2], v[3]) },
    Site { spec: "<b>{0:>-.2(faint)?}&amp;{0: >-#012}{{{0:<+#0(faint)}", n: 1, styl: |v, k| k(stylish::format_args!("<b>{0:>-.2(faint)?}&amp;{0: >-#012}{{{0:<+#0(faint)}", v[0])), std: |v, o| core::write!(o, "<b>{0:>-.2?}&amp;{0: >-#012}{{{0:<+#0}", v[0]) },
    Site { spec: "]{0:<-#7.9(fg=green)X?}a{{b}}c{1:>+#.20(fg=green)}[{0:+#0(fg=green)}{0: >#(faint)X?}", n: 2, styl: |v, k| stylish::write!(K(k), "]{0:<-#7.9(fg=green)X?}a{{b}}c{1:>+#.20(fg=green)}[{0:+#0(fg=green)}{0: >#(faint)X?}", v[0], v[1]), std: |v, o| core::write!(o, "]{0:<-#7.9X?}a{{b}}c{1:>+#.20}[{0:+#0}{0: >#X?}", v[0], v[1]) },
    Site { spec: "'q'{0:<05x?}{: >+00x?}\t{0:^+#.0(fg=green)?} - {1:<+00.20E}\t{0: >+#300?}{:-#.4X?}{{", n: 2, styl: |v, k| k(stylish::format_args!("'q'{0:<05x?}{: >+00x?}\t{0:^+#.0(fg=green)?} - {1:<+00.20E}\t{0: >+#300?}{:-#.4X?}{{", v[0], v[1])), std: |v, o| core::write!(o, "'q'{0:<05x?}{: >+00x?}\t{0:^+#.0?} - {1:<+00.20E}\t{0: >+#300?}{:-#.4X?}{{", v[0], v[1]) },
    Site { spec: "m0;1{a:^+0.20x?}{a: >-02X?}$0", n: 1, styl: |v, k| k(stylish::format_args!("m0;1{a:^+0.20x?}{a: >-02X?}$0", a=v[0])), std: |v, o| core::write!(o, "m0;1{a:^+0.20x?}{a: >-02X?}$0", a=v[0]) },
    Site { spec: "{3: <-#0300?}\r\n{1:X?}\t{3: >-0X?}{2:+0.70x?}<b>{2: ^#} - {0:-#.4}", n: 4, styl: |v, k| stylish::write!(K(k), "{3: <-#0300?}\r\n{1:X?}\t{3: >-0X?}{2:+0.70x?}<b>{2: ^#} - {0:-#.4}", v[0], v[1], v[2], v[3]), std: |v, o| core::write!(o, "{3: <-#0300?}\r\n{1:X?}\t{3: >-0X?}{2:+0.70x?}<b>{2: ^#} - {0:-#.4}", v[0], v[1], v[2], v[3]) },
    Site { spec: "{:^-#(faint)?}\\{:<-#X?}\\n{:<#20x?}é\r\n", n: 3, styl: |v, k| stylish::writeln!(K(k), "{:^-#(faint)?}\\{:<-#X?}\\n{:<#20x?}é\r\n", v[0], v[1], v[2]), std: |v, o| core::writeln!(o, "{:^-#?}\\{:<-#X?}\\n{:<#20x?}é\r\n", v[0], v[1], v[2]) },
    Site { spec: "$0{:-020(fg=green)}\\{: ^-2.1(faint)?}", n: 2, styl: |v, k| k(stylish::format_args!("$0{:-020(fg=green)}\\{: ^-2.1(faint)?}", v[0], v[1])), std: |v, o| core::write!(o, "$0{:-020}\\{: ^-2.1?}", v[0], v[1]) },
    Site { spec: "{{}}{b:>+7(fg=green)?}<b>{b:<12(faint)?}{a:<-#01.0(faint)}", n: 2, styl: |v, k| k(stylish::format_args!("{{}}{b:>+7(fg=green)?}<b>{b:<12(faint)?}{a:<-#01.0(faint)}", a=v[0], b=v[1])), std: |v, o| core::write!(o, "{{}}{b:>+7?}<b>{b:<12?}{a:<-#01.0}", a=v[0], b=v[1]) },
    Site { spec: "{0: ^-#0(faint)}{0: ^-12X?}  {0:#.4X?}\r\n", n: 1, styl: |v, k| k(stylish::format_args!("{0: ^-#0(faint)}{0: ^-12X?}  {0:#.4X?}\r\n", v[0])), std: |v, o| core::write!(o, "{0: ^-#0}{0: ^-12X?}  {0:#.4X?}\r\n", v[0]) },
    Site { spec: "<b>{0: <-02.4(faint)?}\r{0: >-0.4}1:{0:^#0(faint)X?}m0;1{:<b}", n: 1, styl: |v, k| stylish::writeln!(K(k), "<b>{0: <-02.4(faint)?}\r{0: >-0.4}1:{0:^#0(faint)X?}m0;1{:<b}", v[0]), std: |v, o| core::writeln!(o, "<b>{0: <-02.4?}\r{0: >-0.4}1:{0:^#0X?}m0;1{:<b}", v[0]) },
    Site { spec: "\r{0:+#012.2(faint)X?}{1: >20.9p}#;{0:07.9(faint)X?}}}{2:300(fg=green)X?}  ", n: 3, styl: |v, k| k(stylish::format_args!("\r{0:+#012.2(faint)X?}{1: >20.9p}#;{0:07.9(faint)X?}}}{2:300(fg=green)X?}  ", v[0], v[1], v[2])), std: |v, o| core::write!(o, "\r{0:+#012.2X?}{1: >20.9p}#;{0:07.9X?}}}{2:300X?}  ", v[0], v[1], v[2]) },
    Site { spec: "{{{a:<12(faint)b}$0{b: <#300.70E}{d:-#1.20X?}1:{b: ^#0.0(faint)?}{c:^#0300.4X?}\r\n", n: 4, styl: |v, k| stylish::write!(K(k), "{{{a:<12(faint)b}$0{b: <#300.70E}{d:-#1.20X?}1:{b: ^#0.0(faint)?}{c:^#0300.4X?}\r\n", a=v[0], b=v[1], c=v[2], d=v[3]), std: |v, o| core::write!(o, "{{{a:<12b}$0{b: <#300.70E}{d:-#1.20X?}1:{b: ^#0.0?}{c:^#0300.4X?}\r\n", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "\n{: <-020x}{:^+66?}1:{:#07(fg=green)?}", n: 3, styl: |v, k| k(stylish::format_args!("\n{: <-020x}{:^+66?}1:{:#07(fg=green)?}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "\n{: <-020x}{:^+66?}1:{:#07?}", v[0], v[1], v[2]) },
    Site { spec: "\n\n{:-#0(fg=green)x?}\n{:+#2x}&", n: 2, styl: |v, k| k(stylish::format_args!("\n\n{:-#0(fg=green)x?}\n{:+#2x}&", v[0], v[1])), std: |v, o| core::write!(o, "\n\n{:-#0x?}\n{:+#2x}&", v[0], v[1]) },
    Site { spec: "{{{a:^#0300.4(faint)?}\u{feff}{b:>+#0.9}{b:^+#66(fg=green)X?}\\", n: 2, styl: |v, k| k(stylish::format_args!("{{{a:^#0300.4(faint)?}\u{feff}{b:>+#0.9}{b:^+#66(fg=green)X?}\\", a=v[0], b=v[1])), std: |v, o| core::write!(o, "{{{a:^#0300.4?}\u{feff}{b:>+#0.9}{b:^+#66X?}\\", a=v[0], b=v[1]) },
    Site { spec: "\n\n{0: ^-#.2}{{{2:^#0x}{1: <#300.70(faint)E}x", n: 3, styl: |v, k| k(stylish::format_args!("\n\n{0: ^-#.2}{{{2:^#0x}{1: <#300.70(faint)E}x", v[0], v[1], v[2])), std: |v, o| core::write!(o, "\n\n{0: ^-#.2}{{{2:^#0x}{1: <#300.70E}x", v[0], v[1], v[2]) },
    Site { spec: "#;{d:>.4?}&amp;{b: <0?}{c:^-#01(faint)X?}{a: ^-#5(faint)e}''", n: 4, styl: |v, k| k(stylish::format_args!("#;{d:>.4?}&amp;{b: <0?}{c:^-#01(faint)X?}{a: ^-#5(faint)e}''", a=v[0], b=v[1], c=v[2], d=v[3])), std: |v, o| core::write!(o, "#;{d:>.4?}&amp;{b: <0?}{c:^-#01X?}{a: ^-#5e}''", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "  {1:<+#0(fg=green)X?}é{0:<00.2(fg=green)X?}{0: >+#?}", n: 2, styl: |v, k| stylish::write!(K(k), "  {1:<+#0(fg=green)X?}é{0:<00.2(fg=green)X?}{0: >+#?}", v[0], v[1]), std: |v, o| core::write!(o, "  {1:<+#0X?}é{0:<00.2X?}{0: >+#?}", v[0], v[1]) },
    Site { spec: "{0:>+#0.9o}<!-- -->{0:-#.4?}{1:-#0E}{0: >+00(fg=green)?}\"\r", n: 2, styl: |v, k| stylish::writeln!(K(k), "{0:>+#0.9o}<!-- -->{0:-#.4?}{1:-#0E}{0: >+00(fg=green)?}\"\r", v[0], v[1]), std: |v, o| core::writeln!(o, "{0:>+#0.9o}<!-- -->{0:-#.4?}{1:-#0E}{0: >+00?}\"\r", v[0], v[1]) },
    Site { spec: "　{:^-#01(faint)}: {: >-300.9x?}　{: ^+012.20e}1:", n: 3, styl: |v, k| k(stylish::format_args!("　{:^-#01(faint)}: {: >-300.9x?}　{: ^+012.20e}1:", v[0], v[1], v[2])), std: |v, o| core::write!(o, "　{:^-#01}: {: >-300.9x?}　{: ^+012.20e}1:", v[0], v[1], v[2]) },
    Site { spec: "{:^+#.0b}", n: 1, styl: |v, k| k(stylish::format_args!("{:^+#.0b}", v[0])), std: |v, o| core::write!(o, "{:^+#.0b}", v[0]) },
    Site { spec: "%%{b:#0p}1:{a: >-0(fg=green)x?}\n\n", n: 2, styl: |v, k| stylish::write!(K(k), "%%{b:#0p}1:{a: >-0(fg=green)x?}\n\n", a=v[0], b=v[1]), std: |v, o| core::write!(o, "%%{b:#0p}1:{a: >-0x?}\n\n", a=v[0], b=v[1]) },
    Site { spec: "{:+#5.9X?}\\n{0: >-#0}\r\n{: ^+#(fg=green)X}&amp;{1: ^-#5(faint)e}\r\n", n: 2, styl: |v, k| stylish::write!(K(k), "{:+#5.9X?}\\n{0: >-#0}\r\n{: ^+#(fg=green)X}&amp;{1: ^-#5(faint)e}\r\n", v[0], v[1]), std: |v, o| core::write!(o, "{:+#5.9X?}\\n{0: >-#0}\r\n{: ^+#X}&amp;{1: ^-#5e}\r\n", v[0], v[1]) },
    Site { spec: "\0{:<+#0(fg=green)?}é{: >-07.9X?}{: ^#0.0(fg=green)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢", n: 3, styl: |v, k| k(stylish::format_args!("\0{:<+#0(fg=green)?}é{: >-07.9X?}{: ^#0.0(fg=green)?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢", v[0], v[1], v[2])), std: |v, o| core::write!(o, "\0{:<+#0?}é{: >-07.9X?}{: ^#0.0?}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢", v[0], v[1], v[2]) },
    Site { spec: "%%{c: ^+012.20(fg=green)}{b: >-#0(faint)X?}\t{a:+.0X?}\\n", n: 3, styl: |v, k| k(stylish::format_args!("%%{c: ^+012.20(fg=green)}{b: >-#0(faint)X?}\t{a:+.0X?}\\n", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "%%{c: ^+012.20}{b: >-#0X?}\t{a:+.0X?}\\n", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "\0{2:>+#.20}1:{1: ^-#2.2(fg=green)X?}{0: ^+#0?}: ", n: 3, styl: |v, k| k(stylish::format_args!("\0{2:>+#.20}1:{1: ^-#2.2(fg=green)X?}{0: ^+#0?}: ", v[0], v[1], v[2])), std: |v, o| core::write!(o, "\0{2:>+#.20}1:{1: ^-#2.2X?}{0: ^+#0?}: ", v[0], v[1], v[2]) },
    Site { spec: "x{1:#0p}{: <#0.0p}\\n{2:>+#12.70X?}a{{b}}c{2: <#01.4?}#;{1:^-#01(fg=green)?}", n: 3, styl: |v, k| stylish::writeln!(K(k), "x{1:#0p}{: <#0.0p}\\n{2:>+#12.70X?}a{{b}}c{2: <#01.4?}#;{1:^-#01(fg=green)?}", v[0], v[1], v[2]), std: |v, o| core::writeln!(o, "x{1:#0p}{: <#0.0p}\\n{2:>+#12.70X?}a{{b}}c{2: <#01.4?}#;{1:^-#01?}", v[0], v[1], v[2]) },
    Site { spec: "{: >+0(faint)}\u{feff}{0:>020?}&{1: ^5(faint)b}{1:^#66.4(fg=green)x?}  {:<+#0(faint)p}", n: 2, styl: |v, k| k(stylish::format_args!("{: >+0(faint)}\u{feff}{0:>020?}&{1: ^5(faint)b}{1:^#66.4(fg=green)x?}  {:<+#0(faint)p}", v[0], v[1])), std: |v, o| core::write!(o, "{: >+0}\u{feff}{0:>020?}&{1: ^5b}{1:^#66.4x?}  {:<+#0p}", v[0], v[1]) },
    Site { spec: "{:>+#0.9?}{0:#00.1(faint)x?}  {2: <+#0.20(faint)}\t{1:+#0(faint)}\\n{0: <-#0.2E}<!-- -->{2:<+02}", n: 3, styl: |v, k| k(stylish::format_args!("{:>+#0.9?}{0:#00.1(faint)x?}  {2: <+#0.20(faint)}\t{1:+#0(faint)}\\n{0: <-#0.2E}<!-- -->{2:<+02}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{:>+#0.9?}{0:#00.1x?}  {2: <+#0.20}\t{1:+#0}\\n{0: <-#0.2E}<!-- -->{2:<+02}", v[0], v[1], v[2]) },
    Site { spec: "'q'{b:<05(fg=green)e}{a:>+7x?}{a:+x?}\t{b:>+#12.70(fg=green)X?}", n: 2, styl: |v, k| k(stylish::format_args!("'q'{b:<05(fg=green)e}{a:>+7x?}{a:+x?}\t{b:>+#12.70(fg=green)X?}", a=v[0], b=v[1])), std: |v, o| core::write!(o, "'q'{b:<05e}{a:>+7x?}{a:+x?}\t{b:>+#12.70X?}", a=v[0], b=v[1]) },
    Site { spec: "{3: <-#0.2X?}{1:>0.9(faint)X?}\t{2:>07.9?}{0:^+#66e}{1: <-300}\r", n: 4, styl: |v, k| k(stylish::format_args!(concat!("{3: <-#0.2X?}{1:>0.9(faint)X?}\t{2:>07.9?}{0:^+#66e}{1:", " <-300}\r"), v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{3: <-#0.2X?}{1:>0.9X?}\t{2:>07.9?}{0:^+#66e}{1: <-300}\r", v[0], v[1], v[2], v[3]) },
    Site { spec: "{:-#00(fg=green)?}|{:<-#7.9}{{}}{: <+12x?}x{: <+#01.1x}\n\n", n: 4, styl: |v, k| k(stylish::format_args!("{:-#00(fg=green)?}|{:<-#7.9}{{}}{: <+12x?}x{: <+#01.1x}\n\n", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{:-#00?}|{:<-#7.9}{{}}{: <+12x?}x{: <+#01.1x}\n\n", v[0], v[1], v[2], v[3]) },
    Site { spec: "\n\n{a:-300.4(fg=green)X?}{b:>-#0.0(faint)X?}", n: 2, styl: |v, k| k(stylish::format_args!("\n\n{a:-300.4(fg=green)X?}{b:>-#0.0(faint)X?}", a=v[0], b=v[1])), std: |v, o| core::write!(o, "\n\n{a:-300.4X?}{b:>-#0.0X?}", a=v[0], b=v[1]) },
    Site { spec: "{a:-0.20X?}{b:<x?}<!-- -->{b: ^+#2.0(fg=green)x?}  {c: >+7.2(fg=green)?}{d:<+00.20E}\"", n: 4, styl: |v, k| k(stylish::format_args!("{a:-0.20X?}{b:<x?}<!-- -->{b: ^+#2.0(fg=green)x?}  {c: >+7.2(fg=green)?}{d:<+00.20E}\"", a=v[0], b=v[1], c=v[2], d=v[3])), std: |v, o| core::write!(o, "{a:-0.20X?}{b:<x?}<!-- -->{b: ^+#2.0x?}  {c: >+7.2?}{d:<+00.20E}\"", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "{2: <0.4p}&{:-#.4}\t{1:-#x?}{1:>+#12.70}{2:<+66.9(fg=green)x?}", n: 3, styl: |v, k| k(stylish::format_args!("{2: <0.4p}&{:-#.4}\t{1:-#x?}{1:>+#12.70}{2:<+66.9(fg=green)x?}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{2: <0.4p}&{:-#.4}\t{1:-#x?}{1:>+#12.70}{2:<+66.9x?}", v[0], v[1], v[2]) },
    Site { spec: "{0:^}\\n{0:^+#.0(faint)?} - {0:+02.0X?}　", n: 1, styl: |v, k| k(stylish::format_args!("{0:^}\\n{0:^+#.0(faint)?} - {0:+02.0X?}　", v[0])), std: |v, o| core::write!(o, "{0:^}\\n{0:^+#.0?} - {0:+02.0X?}　", v[0]) },
    Site { spec: " - {:<-0(faint)?}<!-- -->{:+5(fg=green)} - \r", n: 2, styl: |v, k| stylish::write!(K(k), " - {:<-0(faint)?}<!-- -->{:+5(fg=green)} - \r", v[0], v[1]), std: |v, o| core::write!(o, " - {:<-0?}<!-- -->{:+5} - \r", v[0], v[1]) },
    Site { spec: "{:<12}\r\n{:^+66(faint)?}{{{:-#0(fg=green)?}{:0.0(faint)?}", n: 4, styl: |v, k| k(stylish::format_args!("{:<12}\r\n{:^+66(faint)?}{{{:-#0(fg=green)?}{:0.0(faint)?}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{:<12}\r\n{:^+66?}{{{:-#0?}{:0.0?}", v[0], v[1], v[2], v[3]) },
    Site { spec: "\r\n{0: >+#300X?}{{}}{1:300(faint)?}{2:-05.70?}$0{3:+#012.2b}\t{1:>0(fg=green)x?}{0: <0(faint)E}", n: 4, styl: |v, k| k(stylish::format_args!("\r\n{0: >+#300X?}{{}}{1:300(faint)?}{2:-05.70?}$0{3:+#012.2b}\t{1:>0(fg=green)x?}{0: <0(faint)E}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "\r\n{0: >+#300X?}{{}}{1:300?}{2:-05.70?}$0{3:+#012.2b}\t{1:>0x?}{0: <0E}", v[0], v[1], v[2], v[3]) },
    Site { spec: "{0: <-#0.2}\0", n: 1, styl: |v, k| k(stylish::format_args!("{0: <-#0.2}\0", v[0])), std: |v, o| core::write!(o, "{0: <-#0.2}\0", v[0]) },
    Site { spec: " - {: >-0.4x?}{:300?}''{0:-05.70(faint)?}: {1:>+#12.70(fg=green)}{1: <0.4(faint)p}[{1: <+#01.1(fg=green)}{:>07.9X?}", n: 3, styl: |v, k| k(stylish::format_args!(" - {: >-0.4x?}{:300?}''{0:-05.70(faint)?}: {1:>+#12.70(fg=green)}{1: <0.4(faint)p}[{1: <+#01.1(fg=green)}{:>07.9X?}", v[0], v[1], v[2])), std: |v, o| core::write!(o, " - {: >-0.4x?}{:300?}''{0:-05.70?}: {1:>+#12.70}{1: <0.4p}[{1: <+#01.1}{:>07.9X?}", v[0], v[1], v[2]) },
    Site { spec: "{3:<-#1(faint)X?}: {3:>-?}x{: >-02(fg=green)?}{2:+#.0(fg=green)}{2:<#20?}　{0: >#0.0(faint)X?}}}{1:>X?}", n: 4, styl: |v, k| k(stylish::format_args!("{3:<-#1(faint)X?}: {3:>-?}x{: >-02(fg=green)?}{2:+#.0(fg=green)}{2:<#20?}　{0: >#0.0(faint)X?}}}{1:>X?}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{3:<-#1X?}: {3:>-?}x{: >-02?}{2:+#.0}{2:<#20?}　{0: >#0.0X?}}}{1:>X?}", v[0], v[1], v[2], v[3]) },
    Site { spec: "|{d:^+#66x?}{c:<+#0(fg=green)}}}{a:00p}{b:12.9(faint)}{a:>020(faint)?}'q'", n: 4, styl: |v, k| stylish::writeln!(K(k), "|{d:^+#66x?}{c:<+#0(fg=green)}}}{a:00p}{b:12.9(faint)}{a:>020(faint)?}'q'", a=v[0], b=v[1], c=v[2], d=v[3]), std: |v, o| core::writeln!(o, "|{d:^+#66x?}{c:<+#0}}}{a:00p}{b:12.9}{a:>020?}'q'", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "\0{1:#2(fg=green)X?}{: >#0?}&{: ^05.9(faint)?}{: >#X}x{: ^+x?}", n: 4, styl: |v, k| k(stylish::format_args!("\0{1:#2(fg=green)X?}{: >#0?}&{: ^05.9(faint)?}{: >#X}x{: ^+x?}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "\0{1:#2X?}{: >#0?}&{: ^05.9?}{: >#X}x{: ^+x?}", v[0], v[1], v[2], v[3]) },
    Site { spec: "\t{c:^7.70(fg=green)X?}{b:<00.2}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {a:+}|", n: 3, styl: |v, k| k(stylish::format_args!("\t{c:^7.70(fg=green)X?}{b:<00.2}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {a:+}|", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "\t{c:^7.70X?}{b:<00.2}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {a:+}|", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "\r{:+#0(fg=green)?}{:^0x?}\u{feff}", n: 2, styl: |v, k| k(stylish::format_args!("\r{:+#0(fg=green)?}{:^0x?}\u{feff}", v[0], v[1])), std: |v, o| core::write!(o, "\r{:+#0?}{:^0x?}\u{feff}", v[0], v[1]) },
    Site { spec: "%%{:^0x?}{{\\", n: 1, styl: |v, k| stylish::write!(K(k), "%%{:^0x?}{{\\", v[0]), std: |v, o| core::write!(o, "%%{:^0x?}{{\\", v[0]) },
    Site { spec: "{1:>+#0.9x?}\t{0:^0.20X?}m0;1{0: ^-0(fg=green)X?}{2: >-02(fg=green)}", n: 3, styl: |v, k| k(stylish::format_args!("{1:>+#0.9x?}\t{0:^0.20X?}m0;1{0: ^-0(fg=green)X?}{2: >-02(fg=green)}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{1:>+#0.9x?}\t{0:^0.20X?}m0;1{0: ^-0X?}{2: >-02}", v[0], v[1], v[2]) },
    Site { spec: "{a:^-#01(fg=green)}\t{b:-.9}<!-- -->{c: >+#300(fg=green)X?}x", n: 3, styl: |v, k| k(stylish::format_args!("{a:^-#01(fg=green)}\t{b:-.9}<!-- -->{c: >+#300(fg=green)X?}x", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "{a:^-#01}\t{b:-.9}<!-- -->{c: >+#300X?}x", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "{: >-07.9X?}\n\n{0:>0X?}{0:-#300(faint)}<!-- -->{0:<+#.4X?}{{}}{0: ^-2.1x?}\0", n: 1, styl: |v, k| k(stylish::format_args!("{: >-07.9X?}\n\n{0:>0X?}{0:-#300(faint)}<!-- -->{0:<+#.4X?}{{}}{0: ^-2.1x?}\0", v[0])), std: |v, o| core::write!(o, "{: >-07.9X?}\n\n{0:>0X?}{0:-#300}<!-- -->{0:<+#.4X?}{{}}{0: ^-2.1x?}\0", v[0]) },
    Site { spec: "m0;1{a: <+0(faint)X?}<b>", n: 1, styl: |v, k| stylish::write!(K(k), "m0;1{a: <+0(faint)X?}<b>", a=v[0]), std: |v, o| core::write!(o, "m0;1{a: <+0X?}<b>", a=v[0]) },
    Site { spec: "}}{c:^+.1b}\\{b:+02.0x?}{a:>+0.70(fg=green)?}{b:>-.2x?}\r{a: >-300.9x?} - ", n: 3, styl: |v, k| k(stylish::format_args!("}}{c:^+.1b}\\{b:+02.0x?}{a:>+0.70(fg=green)?}{b:>-.2x?}\r{a: >-300.9x?} - ", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "}}{c:^+.1b}\\{b:+02.0x?}{a:>+0.70?}{b:>-.2x?}\r{a: >-300.9x?} - ", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "{{{0:+020(faint)X?}{1:>?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0: >-0X?}", n: 2, styl: |v, k| k(stylish::format_args!("{{{0:+020(faint)X?}{1:>?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0: >-0X?}", v[0], v[1])), std: |v, o| core::write!(o, "{{{0:+020X?}{1:>?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0: >-0X?}", v[0], v[1]) },
    Site { spec: "\"{: ^-0.4X?}\r{: <0.4}a{{b}}c{: ^#.20(fg=green)?}m0;1{:>-0x?}\\n", n: 4, styl: |v, k| k(stylish::format_args!(concat!("\"{: ^-0.4X?}\r{: <0.4", "}a{{b}}c{: ^#.20(fg=green)?}m0;1{:>-0x?}\\n"), v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "\"{: ^-0.4X?}\r{: <0.4}a{{b}}c{: ^#.20?}m0;1{:>-0x?}\\n", v[0], v[1], v[2], v[3]) },
    Site { spec: "#;{: ^-.20X?}}}{: <+}{: <-#0300(fg=green)?}{{{: <-02.4x?}", n: 4, styl: |v, k| k(stylish::format_args!("#;{: ^-.20X?}}}{: <+}{: <-#0300(fg=green)?}{{{: <-02.4x?}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "#;{: ^-.20X?}}}{: <+}{: <-#0300?}{{{: <-02.4x?}", v[0], v[1], v[2], v[3]) },
    Site { spec: "\r\n{b: <+#0.20(faint)x?}}}{c: >+#300p}$0{c:<-#0x?}: {a:<-0(fg=green)o}{c:+#?}\\", n: 3, styl: |v, k| k(stylish::format_args!("\r\n{b: <+#0.20(faint)x?}}}{c: >+#300p}$0{c:<-#0x?}: {a:<-0(fg=green)o}{c:+#?}\\", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "\r\n{b: <+#0.20x?}}}{c: >+#300p}$0{c:<-#0x?}: {a:<-0o}{c:+#?}\\", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "{0: ^-#2.2(fg=green)p}: {1:>-X?}\0", n: 2, styl: |v, k| k(stylish::format_args!("{0: ^-#2.2(fg=green)p}: {1:>-X?}\0", v[0], v[1])), std: |v, o| core::write!(o, "{0: ^-#2.2p}: {1:>-X?}\0", v[0], v[1]) },
    Site { spec: "{1:+#07?}: {2: ^#.20}{0:-#0.4?}  \r", n: 3, styl: |v, k| stylish::writeln!(K(k), "{1:+#07?}: {2: ^#.20}{0:-#0.4?}  \r", v[0], v[1], v[2]), std: |v, o| core::writeln!(o, "{1:+#07?}: {2: ^#.20}{0:-#0.4?}  \r", v[0], v[1], v[2]) },
    Site { spec: "{a:^7.70X?}{c:300(fg=green)X?}é{d:>07.9(faint)}{a:<-#01.0(faint)x}''{b: ^-066(faint)}", n: 4, styl: |v, k| k(stylish::format_args!("{a:^7.70X?}{c:300(fg=green)X?}é{d:>07.9(faint)}{a:<-#01.0(faint)x}''{b: ^-066(faint)}", a=v[0], b=v[1], c=v[2], d=v[3])), std: |v, o| core::write!(o, "{a:^7.70X?}{c:300X?}é{d:>07.9}{a:<-#01.0x}''{b: ^-066}", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "\\n{3:-0?}: {2:>+#0E}{{{:<+#0(faint)e}\0{: <-#0300X}}}{2: <#x?}m0;1{0:-020(faint)X?}}}", n: 4, styl: |v, k| stylish::writeln!(K(k), "\\n{3:-0?}: {2:>+#0E}{{{:<+#0(faint)e}\0{: <-#0300X}}}{2: <#x?}m0;1{0:-020(faint)X?}}}", v[0], v[1], v[2], v[3]), std: |v, o| core::writeln!(o, "\\n{3:-0?}: {2:>+#0E}{{{:<+#0e}\0{: <-#0300X}}}{2: <#x?}m0;1{0:-020X?}}}", v[0], v[1], v[2], v[3]) },
    Site { spec: "{{}}{a: >-#0}#;{b: ^-.20o}{d: >-300.9}{c: >#(fg=green)X}&amp;{c:^.20?}: {d:<#.2(faint)b}", n: 4, styl: |v, k| k(stylish::format_args!("{{}}{a: >-#0}#;{b: ^-.20o}{d: >-300.9}{c: >#(fg=green)X}&amp;{c:^.20?}: {d:<#.2(faint)b}", a=v[0], b=v[1], c=v[2], d=v[3])), std: |v, o| core::write!(o, "{{}}{a: >-#0}#;{b: ^-.20o}{d: >-300.9}{c: >#X}&amp;{c:^.20?}: {d:<#.2b}", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "\\n{1:#00.1X?}$0{0: ^+(faint)X?}  {0:-X?}{0: >-300.9?}", n: 2, styl: |v, k| k(stylish::format_args!("\\n{1:#00.1X?}$0{0: ^+(faint)X?}  {0:-X?}{0: >-300.9?}", v[0], v[1])), std: |v, o| core::write!(o, "\\n{1:#00.1X?}$0{0: ^+X?}  {0:-X?}{0: >-300.9?}", v[0], v[1]) },
    Site { spec: "{0:^#0x?}m0;1{: ^+#0.9b}{:<#066(fg=green)x}{: <-02.4(faint)x?}|{1: <#(fg=green)X?}\0{3:+X?}", n: 4, styl: |v, k| k(stylish::format_args!("{0:^#0x?}m0;1{: ^+#0.9b}{:<#066(fg=green)x}{: <-02.4(faint)x?}|{1: <#(fg=green)X?}\0{3:+X?}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{0:^#0x?}m0;1{: ^+#0.9b}{:<#066x}{: <-02.4x?}|{1: <#X?}\0{3:+X?}", v[0], v[1], v[2], v[3]) },
    Site { spec: "\t{b:>020x?}'q'{b:>+0.70}　{b: ^05.9x?}x{a:-#0(faint)?}", n: 2, styl: |v, k| k(stylish::format_args!("\t{b:>020x?}'q'{b:>+0.70}　{b: ^05.9x?}x{a:-#0(faint)?}", a=v[0], b=v[1])), std: |v, o| core::write!(o, "\t{b:>020x?}'q'{b:>+0.70}　{b: ^05.9x?}x{a:-#0?}", a=v[0], b=v[1]) },
    Site { spec: "{0: ^5(faint)x?}[{2:+#2?}x{1:#07(faint)X?}{2: ^-#5(faint)X?}|{1:<#066(fg=green)?}", n: 3, styl: |v, k| k(stylish::format_args!("{0: ^5(faint)x?}[{2:+#2?}x{1:#07(faint)X?}{2: ^-#5(faint)X?}|{1:<#066(fg=green)?}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{0: ^5x?}[{2:+#2?}x{1:#07X?}{2: ^-#5X?}|{1:<#066?}", v[0], v[1], v[2]) },
    Site { spec: "[{0:>+#.20(fg=green)}1:{:0(faint)X?}#;{1:^+0.20(fg=green)X}|{1: ^-12(fg=green)X?}\r\n", n: 2, styl: |v, k| k(stylish::format_args!("[{0:>+#.20(fg=green)}1:{:0(faint)X?}#;{1:^+0.20(fg=green)X}|{1: ^-12(fg=green)X?}\r\n", v[0], v[1])), std: |v, o| core::write!(o, "[{0:>+#.20}1:{:0X?}#;{1:^+0.20X}|{1: ^-12X?}\r\n", v[0], v[1]) },
    Site { spec: "\t{:<-#7.9(faint)?}}}{:<+00.20(faint)}|{:^+66(faint)b}\r\n ", n: 3, styl: |v, k| stylish::writeln!(K(k), "\t{:<-#7.9(faint)?}}}{:<+00.20(faint)}|{:^+66(faint)b}\r\n ", v[0], v[1], v[2]), std: |v, o| core::writeln!(o, "\t{:<-#7.9?}}}{:<+00.20}|{:^+66b}\r\n ", v[0], v[1], v[2]) },
    Site { spec: "|{2: >+7.2e}{0:>+.2X?}{{{1:>+02.1X?}{:0?}<b>{:+2.70(faint)X?}{2:>-.2X?} - {3:<-#01.0x?}#;", n: 4, styl: |v, k| k(stylish::format_args!("|{2: >+7.2e}{0:>+.2X?}{{{1:>+02.1X?}{:0?}<b>{:+2.70(faint)X?}{2:>-.2X?} - {3:<-#01.0x?}#;", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "|{2: >+7.2e}{0:>+.2X?}{{{1:>+02.1X?}{:0?}<b>{:+2.70X?}{2:>-.2X?} - {3:<-#01.0x?}#;", v[0], v[1], v[2], v[3]) },
    Site { spec: "{0:^#02(faint)?}{0:<+02E}%%{0:+#2x}m0;1\\", n: 1, styl: |v, k| stylish::write!(K(k), "{0:^#02(faint)?}{0:<+02E}%%{0:+#2x}m0;1\\", v[0]), std: |v, o| core::write!(o, "{0:^#02?}{0:<+02E}%%{0:+#2x}m0;1\\", v[0]) },
    Site { spec: "{1:-5?}{2:<+#02(fg=green)X?}{0:-#1.20(fg=green)x?}{0:^#66.4(fg=green)X?}\n", n: 3, styl: |v, k| stylish::writeln!(K(k), "{1:-5?}{2:<+#02(fg=green)X?}{0:-#1.20(fg=green)x?}{0:^#66.4(fg=green)X?}\n", v[0], v[1], v[2]), std: |v, o| core::writeln!(o, "{1:-5?}{2:<+#02X?}{0:-#1.20x?}{0:^#66.4X?}\n", v[0], v[1], v[2]) },
    Site { spec: "{0:>#00.0?}{: >-02(fg=green)}{0: <-1.70(fg=green)b}{0: <0.4(faint)p}\n\n", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{0:>#00.0?}{: >-02(fg=green)}{0: <-1.70(fg=green)b}{0: <0.4(faint)p}\n", "\n"), v[0])), std: |v, o| core::write!(o, "{0:>#00.0?}{: >-02}{0: <-1.70b}{0: <0.4p}\n\n", v[0]) },
    Site { spec: "\0{b:^#02X?}é{a: >-07.9(fg=green)x?}é{b:+x?}&amp;", n: 2, styl: |v, k| k(stylish::format_args!("\0{b:^#02X?}é{a: >-07.9(fg=green)x?}é{b:+x?}&amp;", a=v[0], b=v[1])), std: |v, o| core::write!(o, "\0{b:^#02X?}é{a: >-07.9x?}é{b:+x?}&amp;", a=v[0], b=v[1]) },
    Site { spec: "{:-0(fg=green)?}{:0.0}", n: 2, styl: |v, k| k(stylish::format_args!("{:-0(fg=green)?}{:0.0}", v[0], v[1])), std: |v, o| core::write!(o, "{:-0?}{:0.0}", v[0], v[1]) },
    Site { spec: "1:{c:^+#02(fg=green)}{d: >#}\\n{a: <#01.4(faint)}{{}}{b: ^05.9(faint)b}1:{b:-#00.0(faint)?} - {a:<05(faint)}[}}", n: 4, styl: |v, k| stylish::write!(K(k), "1:{c:^+#02(fg=green)}{d: >#}\\n{a: <#01.4(faint)}{{}}{b: ^05.9(faint)b}1:{b:-#00.0(faint)?} - {a:<05(faint)}[}}", a=v[0], b=v[1], c=v[2], d=v[3]), std: |v, o| core::write!(o, "1:{c:^+#02}{d: >#}\\n{a: <#01.4}{{}}{b: ^05.9b}1:{b:-#00.0?} - {a:<05}[}}", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "<b>{b: ^-#0X?}m0;1{c: ^-2.1x?}{d:-#0.4X?}{a: >#(faint)X?}", n: 4, styl: |v, k| k(stylish::format_args!("<b>{b: ^-#0X?}m0;1{c: ^-2.1x?}{d:-#0.4X?}{a: >#(faint)X?}", a=v[0], b=v[1], c=v[2], d=v[3])), std: |v, o| core::write!(o, "<b>{b: ^-#0X?}m0;1{c: ^-2.1x?}{d:-#0.4X?}{a: >#X?}", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "é{:^7.70(fg=green)E}é{:^-}\n\n{: >+00(fg=green)x?}", n: 3, styl: |v, k| k(stylish::format_args!("é{:^7.70(fg=green)E}é{:^-}\n\n{: >+00(fg=green)x?}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "é{:^7.70E}é{:^-}\n\n{: >+00x?}", v[0], v[1], v[2]) },
    Site { spec: "}}{a: ^-#.2x?}　", n: 1, styl: |v, k| k(stylish::format_args!(concat!("}}{a: ^-#.2x?}　", ""), a=v[0])), std: |v, o| core::write!(o, "}}{a: ^-#.2x?}　", a=v[0]) },
    Site { spec: "{b:-#.4x?}\u{feff}{a:-#0x?}\r{c:^0}　", n: 3, styl: |v, k| k(stylish::format_args!("{b:-#.4x?}\u{feff}{a:-#0x?}\r{c:^0}　", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "{b:-#.4x?}\u{feff}{a:-#0x?}\r{c:^0}　", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "\t{2:^x?}{:>-#0.0(fg=green)X?}\r\n{0:<-.20(fg=green)}{:>-#0.9(fg=green)X?}", n: 3, styl: |v, k| k(stylish::format_args!("\t{2:^x?}{:>-#0.0(fg=green)X?}\r\n{0:<-.20(fg=green)}{:>-#0.9(fg=green)X?}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "\t{2:^x?}{:>-#0.0X?}\r\n{0:<-.20}{:>-#0.9X?}", v[0], v[1], v[2]) },
    Site { spec: "{a: >-300.9(fg=green)e}{b: >-#0x?}{b:^?}m0;1{a:^+#66(faint)X?}", n: 2, styl: |v, k| k(stylish::format_args!("{a: >-300.9(fg=green)e}{b: >-#0x?}{b:^?}m0;1{a:^+#66(faint)X?}", a=v[0], b=v[1])), std: |v, o| core::write!(o, "{a: >-300.9e}{b: >-#0x?}{b:^?}m0;1{a:^+#66X?}", a=v[0], b=v[1]) },
    Site { spec: "\0{: ^-00.70?}<b>{0: <-#0300(faint)?}{:>+#.20?}", n: 2, styl: |v, k| k(stylish::format_args!("\0{: ^-00.70?}<b>{0: <-#0300(faint)?}{:>+#.20?}", v[0], v[1])), std: |v, o| core::write!(o, "\0{: ^-00.70?}<b>{0: <-#0300?}{:>+#.20?}", v[0], v[1]) },
    Site { spec: "{{}}{b: <0X?}{a:^+#.0(fg=green)x?}{b:>0.9(faint)}", n: 2, styl: |v, k| k(stylish::format_args!("{{}}{b: <0X?}{a:^+#.0(fg=green)x?}{b:>0.9(faint)}", a=v[0], b=v[1])), std: |v, o| core::write!(o, "{{}}{b: <0X?}{a:^+#.0x?}{b:>0.9}", a=v[0], b=v[1]) },
    Site { spec: "\r{:<#20(faint)?}", n: 1, styl: |v, k| k(stylish::format_args!("\r{:<#20(faint)?}", v[0])), std: |v, o| core::write!(o, "\r{:<#20?}", v[0]) },
    Site { spec: "{a:<#066x}m0;1{b:00x?}|{b: >#.0X?}{b: <-0.70E}\\", n: 2, styl: |v, k| k(stylish::format_args!("{a:<#066x}m0;1{b:00x?}|{b: >#.0X?}{b: <-0.70E}\\", a=v[0], b=v[1])), std: |v, o| core::write!(o, "{a:<#066x}m0;1{b:00x?}|{b: >#.0X?}{b: <-0.70E}\\", a=v[0], b=v[1]) },
    Site { spec: "{a: >+00X?}\\n", n: 1, styl: |v, k| k(stylish::format_args!("{a: >+00X?}\\n", a=v[0])), std: |v, o| core::write!(o, "{a: >+00X?}\\n", a=v[0]) },
    Site { spec: "{a: >-#0X?}é{a: ^05.9}\n\n{a: <+#(fg=green)}", n: 1, styl: |v, k| k(stylish::format_args!("{a: >-#0X?}é{a: ^05.9}\n\n{a: <+#(fg=green)}", a=v[0])), std: |v, o| core::write!(o, "{a: >-#0X?}é{a: ^05.9}\n\n{a: <+#}", a=v[0]) },
    Site { spec: "{:^#66.4(faint)X?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^#66.4(faint)X?}", v[0])), std: |v, o| core::write!(o, "{:^#66.4X?}", v[0]) },
    Site { spec: "{: ^#0.0(fg=green)?}{3: >+00x?}: {: >#12.0x}{3:^0.20(faint)x?}x{:+02.0(faint)x?}\u{feff}{1: >+7.2x?}a{{b}}c{0:+020?}  {1:#300.9x?}", n: 4, styl: |v, k| k(stylish::format_args!("{: ^#0.0(fg=green)?}{3: >+00x?}: {: >#12.0x}{3:^0.20(faint)x?}x{:+02.0(faint)x?}\u{feff}{1: >+7.2x?}a{{b}}c{0:+020?}  {1:#300.9x?}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{: ^#0.0?}{3: >+00x?}: {: >#12.0x}{3:^0.20x?}x{:+02.0x?}\u{feff}{1: >+7.2x?}a{{b}}c{0:+020?}  {1:#300.9x?}", v[0], v[1], v[2], v[3]) },
    Site { spec: "{: ^+012.20(fg=green)X?}&{1:<#.2(fg=green)x?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0:>}{:.70X?}\t{0: >-#0(fg=green)e}", n: 2, styl: |v, k| k(stylish::format_args!("{: ^+012.20(fg=green)X?}&{1:<#.2(fg=green)x?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0:>}{:.70X?}\t{0: >-#0(fg=green)e}", v[0], v[1])), std: |v, o| core::write!(o, "{: ^+012.20X?}&{1:<#.2x?}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{0:>}{:.70X?}\t{0: >-#0e}", v[0], v[1]) },
    Site { spec: ": {0:^#0(fg=green)x?}}}{: <-1.70(fg=green)x?}", n: 1, styl: |v, k| k(stylish::format_args!(": {0:^#0(fg=green)x?}}}{: <-1.70(fg=green)x?}", v[0])), std: |v, o| core::write!(o, ": {0:^#0x?}}}{: <-1.70x?}", v[0]) },
    Site { spec: "\0{0: ^+#07.0X?}{0: <7.0}{: >+0?}{0:>b}x{0:+2.70(fg=green)?}", n: 1, styl: |v, k| k(stylish::format_args!("\0{0: ^+#07.0X?}{0: <7.0}{: >+0?}{0:>b}x{0:+2.70(fg=green)?}", v[0])), std: |v, o| core::write!(o, "\0{0: ^+#07.0X?}{0: <7.0}{: >+0?}{0:>b}x{0:+2.70?}", v[0]) },
    Site { spec: "]{:<05(faint)X?}m0;1", n: 1, styl: |v, k| k(stylish::format_args!("]{:<05(faint)X?}m0;1", v[0])), std: |v, o| core::write!(o, "]{:<05X?}m0;1", v[0]) },
    Site { spec: "{1: >+7.2(fg=green)e}{0:+020b}%%{2: ^-00.70(faint)x?}<b>", n: 3, styl: |v, k| k(stylish::format_args!("{1: >+7.2(fg=green)e}{0:+020b}%%{2: ^-00.70(faint)x?}<b>", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{1: >+7.2e}{0:+020b}%%{2: ^-00.70x?}<b>", v[0], v[1], v[2]) },
    Site { spec: "\n\n{a: <-#0300(faint)}<!-- -->", n: 1, styl: |v, k| k(stylish::format_args!("\n\n{a: <-#0300(faint)}<!-- -->", a=v[0])), std: |v, o| core::write!(o, "\n\n{a: <-#0300}<!-- -->", a=v[0]) },
    Site { spec: "{d:12.9x?}}}{b:+2.70X?}{a: <#0.0(faint)X?}'q'{c:-#0(faint)X?}{d: ^-0.4x?}\0", n: 4, styl: |v, k| k(stylish::format_args!("{d:12.9x?}}}{b:+2.70X?}{a: <#0.0(faint)X?}'q'{c:-#0(faint)X?}{d: ^-0.4x?}\0", a=v[0], b=v[1], c=v[2], d=v[3])), std: |v, o| core::write!(o, "{d:12.9x?}}}{b:+2.70X?}{a: <#0.0X?}'q'{c:-#0X?}{d: ^-0.4x?}\0", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "\r\n{:-300.4(fg=green)?}  {0:<+02(fg=green)X?}{1:^+20.4(faint)E}{3:<-#0(faint)x?}&amp;{1:.70(faint)e}{1: ^#(fg=green)x?}\r\n{2:-#1.20?}{{", n: 4, styl: |v, k| k(stylish::format_args!(concat!("\r\n{:-300.4(fg=green)?}  {0:<+02(fg=green)X?}{1:^+20.4(faint)E}", "{3:<-#0(faint)x?}&amp;{1:.70(faint)e}{1: ^#(fg=green)x?}\r\n{2:-#1.20?}{{"), v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "\r\n{:-300.4?}  {0:<+02X?}{1:^+20.4E}{3:<-#0x?}&amp;{1:.70e}{1: ^#x?}\r\n{2:-#1.20?}{{", v[0], v[1], v[2], v[3]) },
    Site { spec: "é{: >20.9(faint)p}x{2: <7.0(fg=green)?}''{:^#0300.4(faint)b}{: ^-#0.20x?}{1:00(faint)X?}: {0:^#66.4x?}", n: 3, styl: |v, k| k(stylish::format_args!("é{: >20.9(faint)p}x{2: <7.0(fg=green)?}''{:^#0300.4(faint)b}{: ^-#0.20x?}{1:00(faint)X?}: {0:^#66.4x?}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "é{: >20.9p}x{2: <7.0?}''{:^#0300.4b}{: ^-#0.20x?}{1:00X?}: {0:^#66.4x?}", v[0], v[1], v[2]) },
    Site { spec: "{:>+#.20E}", n: 1, styl: |v, k| k(stylish::format_args!("{:>+#.20E}", v[0])), std: |v, o| core::write!(o, "{:>+#.20E}", v[0]) },
    Site { spec: "{2:>+7X?}{{{:<-#7.9?}\r\n{2: >-07.9}[{1:#.4?}", n: 3, styl: |v, k| k(stylish::format_args!("{2:>+7X?}{{{:<-#7.9?}\r\n{2: >-07.9}[{1:#.4?}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{2:>+7X?}{{{:<-#7.9?}\r\n{2: >-07.9}[{1:#.4?}", v[0], v[1], v[2]) },
    Site { spec: "{a: <0.4}\r", n: 1, styl: |v, k| k(stylish::format_args!("{a: <0.4}\r", a=v[0])), std: |v, o| core::write!(o, "{a: <0.4}\r", a=v[0]) },
    Site { spec: "{:#.4(faint)?}{:-05.70(fg=green)x?}é{: ^5(fg=green)?}", n: 3, styl: |v, k| k(stylish::format_args!("{:#.4(faint)?}{:-05.70(fg=green)x?}é{: ^5(fg=green)?}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{:#.4?}{:-05.70x?}é{: ^5?}", v[0], v[1], v[2]) },
    Site { spec: "&amp;{:<#066?}{{{:#2(faint)o}$0{:300(faint)X?}  {:+0.70x?}]", n: 4, styl: |v, k| k(stylish::format_args!("&amp;{:<#066?}{{{:#2(faint)o}$0{:300(faint)X?}  {:+0.70x?}]", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "&amp;{:<#066?}{{{:#2o}$0{:300X?}  {:+0.70x?}]", v[0], v[1], v[2], v[3]) },
    Site { spec: "{a: ^5X?}''{c:-05.70(fg=green)}|{c:<+#02(faint)X?}{c:^0.20}a{{b}}c{b: ^+#}", n: 3, styl: |v, k| k(stylish::format_args!("{a: ^5X?}''{c:-05.70(fg=green)}|{c:<+#02(faint)X?}{c:^0.20}a{{b}}c{b: ^+#}", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "{a: ^5X?}''{c:-05.70}|{c:<+#02X?}{c:^0.20}a{{b}}c{b: ^+#}", a=v[0], b=v[1], c=v[2]) },
    Site { spec: " - {0:-0(faint)X?}{0:^#66.4(faint)x}\u{feff}{0:-020X?}}}", n: 1, styl: |v, k| k(stylish::format_args!(" - {0:-0(faint)X?}{0:^#66.4(faint)x}\u{feff}{0:-020X?}}}", v[0])), std: |v, o| core::write!(o, " - {0:-0X?}{0:^#66.4x}\u{feff}{0:-020X?}}}", v[0]) },
    Site { spec: "<b>{b: >-300.9(faint)?}\\{c: >#12.0(fg=green)?}{a:+0(faint)x?}", n: 3, styl: |v, k| k(stylish::format_args!("<b>{b: >-300.9(faint)?}\\{c: >#12.0(fg=green)?}{a:+0(faint)x?}", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "<b>{b: >-300.9?}\\{c: >#12.0?}{a:+0x?}", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "{2: ^-0.4X?}{{}}{3:^7.70(faint)X?}%%{0: <+#(faint)x?}{{}}{1: ^#0.0}{1:<-#1(faint)X?}<b>{0:#300.9}x", n: 4, styl: |v, k| k(stylish::format_args!("{2: ^-0.4X?}{{}}{3:^7.70(faint)X?}%%{0: <+#(faint)x?}{{}}{1: ^#0.0}{1:<-#1(faint)X?}<b>{0:#300.9}x", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{2: ^-0.4X?}{{}}{3:^7.70X?}%%{0: <+#x?}{{}}{1: ^#0.0}{1:<-#1X?}<b>{0:#300.9}x", v[0], v[1], v[2], v[3]) },
    Site { spec: "a{{b}}c{0:-#300?}a{{b}}c{1:#07(fg=green)E}", n: 2, styl: |v, k| k(stylish::format_args!("a{{b}}c{0:-#300?}a{{b}}c{1:#07(fg=green)E}", v[0], v[1])), std: |v, o| core::write!(o, "a{{b}}c{0:-#300?}a{{b}}c{1:#07E}", v[0], v[1]) },
    Site { spec: "a{{b}}c{b: <0.4}<!-- -->{a:#0p}{{}}{b:^(fg=green)x?}m0;1{a: <-020(fg=green)x?}''", n: 2, styl: |v, k| k(stylish::format_args!(concat!("a{{b}}c{b: <0.4}<!-- -->{a:#0p", "}{{}}{b:^(fg=green)x?}m0;1{a: <-020(fg=green)x?}''"), a=v[0], b=v[1])), std: |v, o| core::write!(o, "a{{b}}c{b: <0.4}<!-- -->{a:#0p}{{}}{b:^x?}m0;1{a: <-020x?}''", a=v[0], b=v[1]) },
    Site { spec: "{:^?}", n: 1, styl: |v, k| k(stylish::format_args!("{:^?}", v[0])), std: |v, o| core::write!(o, "{:^?}", v[0]) },
    Site { spec: "\n{:<#066X?}m0;1{:+#2(faint)}\r\n{:<+#02x?}\0{:>+#0.9x?}", n: 4, styl: |v, k| k(stylish::format_args!("\n{:<#066X?}m0;1{:+#2(faint)}\r\n{:<+#02x?}\0{:>+#0.9x?}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "\n{:<#066X?}m0;1{:+#2}\r\n{:<+#02x?}\0{:>+#0.9x?}", v[0], v[1], v[2], v[3]) },
    Site { spec: "x{:+#5.9X?}a{{b}}c{:#0.0?}", n: 2, styl: |v, k| k(stylish::format_args!("x{:+#5.9X?}a{{b}}c{:#0.0?}", v[0], v[1])), std: |v, o| core::write!(o, "x{:+#5.9X?}a{{b}}c{:#0.0?}", v[0], v[1]) },
    Site { spec: "{: ^-#5?}", n: 1, styl: |v, k| k(stylish::format_args!("{: ^-#5?}", v[0])), std: |v, o| core::write!(o, "{: ^-#5?}", v[0]) },
    Site { spec: "{0:>+#05.20(faint)E}%%{3:<+00.20E}{1:-#.4b}{2: <+0.0}", n: 4, styl: |v, k| k(stylish::format_args!("{0:>+#05.20(faint)E}%%{3:<+00.20E}{1:-#.4b}{2: <+0.0}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{0:>+#05.20E}%%{3:<+00.20E}{1:-#.4b}{2: <+0.0}", v[0], v[1], v[2], v[3]) },
    Site { spec: "é{: <+0.0x?}{{}}{: >-0.4(fg=green)x}#;", n: 2, styl: |v, k| k(stylish::format_args!("é{: <+0.0x?}{{}}{: >-0.4(fg=green)x}#;", v[0], v[1])), std: |v, o| core::write!(o, "é{: <+0.0x?}{{}}{: >-0.4x}#;", v[0], v[1]) },
    Site { spec: "x{1:#07(faint)x?}<b>{0:+#.0(fg=green)?}[{: ^-0.4(faint)x?}}}{:>+02.1}&amp;", n: 2, styl: |v, k| k(stylish::format_args!("x{1:#07(faint)x?}<b>{0:+#.0(fg=green)?}[{: ^-0.4(faint)x?}}}{:>+02.1}&amp;", v[0], v[1])), std: |v, o| core::write!(o, "x{1:#07x?}<b>{0:+#.0?}[{: ^-0.4x?}}}{:>+02.1}&amp;", v[0], v[1]) },
    Site { spec: "\\{: ^+#0.9x?}[{:^-#01.70}\r{:<-.20(faint)X}\n", n: 3, styl: |v, k| k(stylish::format_args!("\\{: ^+#0.9x?}[{:^-#01.70}\r{:<-.20(faint)X}\n", v[0], v[1], v[2])), std: |v, o| core::write!(o, "\\{: ^+#0.9x?}[{:^-#01.70}\r{:<-.20X}\n", v[0], v[1], v[2]) },
    Site { spec: "'q'{:+#.0(fg=green)x?}\"{:-#0(fg=green)E}1:", n: 2, styl: |v, k| k(stylish::format_args!("'q'{:+#.0(fg=green)x?}\"{:-#0(fg=green)E}1:", v[0], v[1])), std: |v, o| core::write!(o, "'q'{:+#.0x?}\"{:-#0E}1:", v[0], v[1]) },
    Site { spec: "é{: >-0x?} - {0: >+x?}\"{:-0.20(fg=green)X?}\\n{2: <+0?}{2: ^+012.20(fg=green)X?}#;", n: 3, styl: |v, k| k(stylish::format_args!("é{: >-0x?} - {0: >+x?}\"{:-0.20(fg=green)X?}\\n{2: <+0?}{2: ^+012.20(fg=green)X?}#;", v[0], v[1], v[2])), std: |v, o| core::write!(o, "é{: >-0x?} - {0: >+x?}\"{:-0.20X?}\\n{2: <+0?}{2: ^+012.20X?}#;", v[0], v[1], v[2]) },
    Site { spec: "a{{b}}c{b:+0X}1:{c: <+12(faint)}{a:^+#.0b}\\{c:<-#0X}'q'{d:-#1.20(faint)o}　{b:<-X?}<b>", n: 4, styl: |v, k| k(stylish::format_args!("a{{b}}c{b:+0X}1:{c: <+12(faint)}{a:^+#.0b}\\{c:<-#0X}'q'{d:-#1.20(faint)o}　{b:<-X?}<b>", a=v[0], b=v[1], c=v[2], d=v[3])), std: |v, o| core::write!(o, "a{{b}}c{b:+0X}1:{c: <+12}{a:^+#.0b}\\{c:<-#0X}'q'{d:-#1.20o}　{b:<-X?}<b>", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "\n{a:-#00.0(faint)e}#;{d:#0X?}\\n{b:+0.70x?}]{c:>+7(faint)X?}", n: 4, styl: |v, k| k(stylish::format_args!("\n{a:-#00.0(faint)e}#;{d:#0X?}\\n{b:+0.70x?}]{c:>+7(faint)X?}", a=v[0], b=v[1], c=v[2], d=v[3])), std: |v, o| core::write!(o, "\n{a:-#00.0e}#;{d:#0X?}\\n{b:+0.70x?}]{c:>+7X?}", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "\\{0: ^07(fg=green)e}{1: <-#0300(fg=green)X?}", n: 2, styl: |v, k| k(stylish::format_args!("\\{0: ^07(fg=green)e}{1: <-#0300(fg=green)X?}", v[0], v[1])), std: |v, o| core::write!(o, "\\{0: ^07e}{1: <-#0300X?}", v[0], v[1]) },
    Site { spec: "<b>{1:#0(fg=green)x?}　{: >#.0x?}m0;1{0:<-#01.0(fg=green)}&amp;{:-.9(faint)}\n{2: <+12(faint)?}%%{0:>-?}\n", n: 3, styl: |v, k| stylish::writeln!(K(k), "<b>{1:#0(fg=green)x?}　{: >#.0x?}m0;1{0:<-#01.0(fg=green)}&amp;{:-.9(faint)}\n{2: <+12(faint)?}%%{0:>-?}\n", v[0], v[1], v[2]), std: |v, o| core::writeln!(o, "<b>{1:#0x?}　{: >#.0x?}m0;1{0:<-#01.0}&amp;{:-.9}\n{2: <+12?}%%{0:>-?}\n", v[0], v[1], v[2]) },
    Site { spec: "#;{: ^#.20X?}{: ^-#2.2X?}", n: 2, styl: |v, k| k(stylish::format_args!("#;{: ^#.20X?}{: ^-#2.2X?}", v[0], v[1])), std: |v, o| core::write!(o, "#;{: ^#.20X?}{: ^-#2.2X?}", v[0], v[1]) },
    Site { spec: "\r\n{c:+.0(faint)?}1:{b:+#0(fg=green)x?}{a: <+0.0(faint)X?}[\\", n: 3, styl: |v, k| stylish::write!(K(k), "\r\n{c:+.0(faint)?}1:{b:+#0(fg=green)x?}{a: <+0.0(faint)X?}[\\", a=v[0], b=v[1], c=v[2]), std: |v, o| core::write!(o, "\r\n{c:+.0?}1:{b:+#0x?}{a: <+0.0X?}[\\", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "　{b:-0.20X?}{b:0.0(fg=green)}<!-- -->{b: >-0X?}x{a:-300.4(faint)x?}#;", n: 2, styl: |v, k| k(stylish::format_args!("　{b:-0.20X?}{b:0.0(fg=green)}<!-- -->{b: >-0X?}x{a:-300.4(faint)x?}#;", a=v[0], b=v[1])), std: |v, o| core::write!(o, "　{b:-0.20X?}{b:0.0}<!-- -->{b: >-0X?}x{a:-300.4x?}#;", a=v[0], b=v[1]) },
    Site { spec: "|{c:+02.0E}{b: ^-#0b}{a:+0.70?}{c: ^07(fg=green)e}{a:<-#7.9X?}", n: 3, styl: |v, k| k(stylish::format_args!("|{c:+02.0E}{b: ^-#0b}{a:+0.70?}{c: ^07(fg=green)e}{a:<-#7.9X?}", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "|{c:+02.0E}{b: ^-#0b}{a:+0.70?}{c: ^07e}{a:<-#7.9X?}", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "{0:<+.0(fg=green)e}{1:-#1.20(fg=green)o}\0\n", n: 2, styl: |v, k| stylish::write!(K(k), "{0:<+.0(fg=green)e}{1:-#1.20(fg=green)o}\0\n", v[0], v[1]), std: |v, o| core::write!(o, "{0:<+.0e}{1:-#1.20o}\0\n", v[0], v[1]) },
    Site { spec: "%%{0: ^-#5(faint)?}　{0:<+#0.70}$0{: ^#1(fg=green)b}{{{0:-#0(faint)x?}|{0:#0X?}", n: 1, styl: |v, k| k(stylish::format_args!("%%{0: ^-#5(faint)?}　{0:<+#0.70}$0{: ^#1(fg=green)b}{{{0:-#0(faint)x?}|{0:#0X?}", v[0])), std: |v, o| core::write!(o, "%%{0: ^-#5?}　{0:<+#0.70}$0{: ^#1b}{{{0:-#0x?}|{0:#0X?}", v[0]) },
    Site { spec: "\r{0: <+X?}$0{:+02.0}\\n{0: ^#}\\n{0: >+7.2?}}}", n: 1, styl: |v, k| k(stylish::format_args!("\r{0: <+X?}$0{:+02.0}\\n{0: ^#}\\n{0: >+7.2?}}}", v[0])), std: |v, o| core::write!(o, "\r{0: <+X?}$0{:+02.0}\\n{0: ^#}\\n{0: >+7.2?}}}", v[0]) },
    Site { spec: "{: <-02.4x}{:<-#7.9?}{0:<+#0(faint)x?}é{2:>07.9?}", n: 3, styl: |v, k| k(stylish::format_args!(concat!("{: <-02.4x}{:<", "-#7.9?}{0:<+#0(faint)x?}é{2:>07.9?}"), v[0], v[1], v[2])), std: |v, o| core::write!(o, "{: <-02.4x}{:<-#7.9?}{0:<+#0x?}é{2:>07.9?}", v[0], v[1], v[2]) },
    Site { spec: "{c: >-#0(faint)x?}{b:>#00.0(faint)x?}&{a:<+66.9(fg=green)?}{c: >#12.0?}<b>{b:-x?}\\n", n: 3, styl: |v, k| k(stylish::format_args!("{c: >-#0(faint)x?}{b:>#00.0(faint)x?}&{a:<+66.9(fg=green)?}{c: >#12.0?}<b>{b:-x?}\\n", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "{c: >-#0x?}{b:>#00.0x?}&{a:<+66.9?}{c: >#12.0?}<b>{b:-x?}\\n", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "{a: <+0.0X?}{b: ^-.20(fg=green)?}{c: <0(faint)X?}", n: 3, styl: |v, k| k(stylish::format_args!("{a: <+0.0X?}{b: ^-.20(fg=green)?}{c: <0(faint)X?}", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "{a: <+0.0X?}{b: ^-.20?}{c: <0X?}", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "{0:>+#0.9}1:", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{0:>", "+#0.9}1:"), v[0])), std: |v, o| core::write!(o, "{0:>+#0.9}1:", v[0]) },
    Site { spec: "{0:>0x?}{0:-#00X}é", n: 1, styl: |v, k| k(stylish::format_args!("{0:>0x?}{0:-#00X}é", v[0])), std: |v, o| core::write!(o, "{0:>0x?}{0:-#00X}é", v[0]) },
    Site { spec: "{1:-(fg=green)}<!-- -->{2:<.70(faint)}#;{3:>-0E}]{0:^(faint)}", n: 4, styl: |v, k| k(stylish::format_args!("{1:-(fg=green)}<!-- -->{2:<.70(faint)}#;{3:>-0E}]{0:^(faint)}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{1:-}<!-- -->{2:<.70}#;{3:>-0E}]{0:^}", v[0], v[1], v[2], v[3]) },
    Site { spec: "\\{0:<.70(fg=green)b}01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789{: <#0.0?}: {0:#07x?}{0:<+#.4?}\u{feff}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("\\{0:<.70(fg=green)b}012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890", "12345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789{: <#0.0?}: {0:#07x?}{0:<+#.4?}\u{feff}"), v[0])), std: |v, o| core::write!(o, "\\{0:<.70b}01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789{: <#0.0?}: {0:#07x?}{0:<+#.4?}\u{feff}", v[0]) },
    Site { spec: "{{{3: >+00}{{{1:<-#1}a{{b}}c{0:<-.20(faint)?}m0;1{2: ^+0?}|{2: ^05.9b}", n: 4, styl: |v, k| k(stylish::format_args!("{{{3: >+00}{{{1:<-#1}a{{b}}c{0:<-.20(faint)?}m0;1{2: ^+0?}|{2: ^05.9b}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{{{3: >+00}{{{1:<-#1}a{{b}}c{0:<-.20?}m0;1{2: ^+0?}|{2: ^05.9b}", v[0], v[1], v[2], v[3]) },
    Site { spec: "&amp;{2: >-300.9x?}\u{feff}{3:<+#.4?}''{:>X?}]{:>+0.70x?}{0: <-#.70X}", n: 4, styl: |v, k| k(stylish::format_args!("&amp;{2: >-300.9x?}\u{feff}{3:<+#.4?}''{:>X?}]{:>+0.70x?}{0: <-#.70X}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "&amp;{2: >-300.9x?}\u{feff}{3:<+#.4?}''{:>X?}]{:>+0.70x?}{0: <-#.70X}", v[0], v[1], v[2], v[3]) },
    Site { spec: "&{a: <-02.4}{a:+5}]{a: <-0.70(faint)}", n: 1, styl: |v, k| k(stylish::format_args!("&{a: <-02.4}{a:+5}]{a: <-0.70(faint)}", a=v[0])), std: |v, o| core::write!(o, "&{a: <-02.4}{a:+5}]{a: <-0.70}", a=v[0]) },
    Site { spec: "{:<+#02x?}}}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("{:<+#02x?}}}", ""), v[0])), std: |v, o| core::write!(o, "{:<+#02x?}}}", v[0]) },
    Site { spec: "1:{:>+7?}", n: 1, styl: |v, k| k(stylish::format_args!("1:{:>+7?}", v[0])), std: |v, o| core::write!(o, "1:{:>+7?}", v[0]) },
    Site { spec: "{0: >-300.9x?}{0: ^-066(faint)x?}{0:-#0.4(faint)x?}\t{2:^#66.4X?}{1:#07(fg=green)?}: ", n: 3, styl: |v, k| k(stylish::format_args!("{0: >-300.9x?}{0: ^-066(faint)x?}{0:-#0.4(faint)x?}\t{2:^#66.4X?}{1:#07(fg=green)?}: ", v[0], v[1], v[2])), std: |v, o| core::write!(o, "{0: >-300.9x?}{0: ^-066x?}{0:-#0.4x?}\t{2:^#66.4X?}{1:#07?}: ", v[0], v[1], v[2]) },
    Site { spec: "{a:#0.0x}]{a:+#0}''", n: 1, styl: |v, k| stylish::writeln!(K(k), "{a:#0.0x}]{a:+#0}''", a=v[0]), std: |v, o| core::writeln!(o, "{a:#0.0x}]{a:+#0}''", a=v[0]) },
    Site { spec: "&amp;{0:-0X?}: {2: ^#0.0(faint)?}\r\n{1:<-X?}{0: ^-0(fg=green)x?}{1:.70(fg=green)X?}", n: 3, styl: |v, k| k(stylish::format_args!(concat!("&amp;{", "0:-0X?}: {2: ^#0.0(faint)?}\r\n{1:<-X?}{0: ^-0(fg=green)x?}{1:.70(fg=green)X?}"), v[0], v[1], v[2])), std: |v, o| core::write!(o, "&amp;{0:-0X?}: {2: ^#0.0?}\r\n{1:<-X?}{0: ^-0x?}{1:.70X?}", v[0], v[1], v[2]) },
    Site { spec: "\n{:07.9(faint)X?}'q'{0:^0(faint)?}", n: 1, styl: |v, k| k(stylish::format_args!("\n{:07.9(faint)X?}'q'{0:^0(faint)?}", v[0])), std: |v, o| core::write!(o, "\n{:07.9X?}'q'{0:^0?}", v[0]) },
    Site { spec: "\n\n{: <-#0.2E}\"", n: 1, styl: |v, k| k(stylish::format_args!("\n\n{: <-#0.2E}\"", v[0])), std: |v, o| core::write!(o, "\n\n{: <-#0.2E}\"", v[0]) },
    Site { spec: ": {a:^#02(faint)}{{{b:>+#0?}", n: 2, styl: |v, k| k(stylish::format_args!(": {a:^#02(faint)}{{{b:>+#0?}", a=v[0], b=v[1])), std: |v, o| core::write!(o, ": {a:^#02}{{{b:>+#0?}", a=v[0], b=v[1]) },
    Site { spec: "<!-- -->{2:-x?}#;{0:<+02x?}é{2: ^#.20x?}{1: >#0b}\r{0:^+05(fg=green)?}$0\t", n: 3, styl: |v, k| stylish::write!(K(k), "<!-- -->{2:-x?}#;{0:<+02x?}é{2: ^#.20x?}{1: >#0b}\r{0:^+05(fg=green)?}$0\t", v[0], v[1], v[2]), std: |v, o| core::write!(o, "<!-- -->{2:-x?}#;{0:<+02x?}é{2: ^#.20x?}{1: >#0b}\r{0:^+05?}$0\t", v[0], v[1], v[2]) },
    Site { spec: "&amp;{:}\n\n", n: 1, styl: |v, k| stylish::writeln!(K(k), "&amp;{:}\n\n", v[0]), std: |v, o| core::writeln!(o, "&amp;{:}\n\n", v[0]) },
    Site { spec: "\0{0: <#01.4?}{1:^+#66?}\r{1: ^-#.2(faint)x}{0:>+#0(fg=green)X?}#;", n: 2, styl: |v, k| k(stylish::format_args!("\0{0: <#01.4?}{1:^+#66?}\r{1: ^-#.2(faint)x}{0:>+#0(fg=green)X?}#;", v[0], v[1])), std: |v, o| core::write!(o, "\0{0: <#01.4?}{1:^+#66?}\r{1: ^-#.2x}{0:>+#0X?}#;", v[0], v[1]) },
    Site { spec: "{3:07.9e}\r{0: <0(faint)x?}  {1:^#0(faint)}{2: <-0.70(faint)E}", n: 4, styl: |v, k| k(stylish::format_args!("{3:07.9e}\r{0: <0(faint)x?}  {1:^#0(faint)}{2: <-0.70(faint)E}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{3:07.9e}\r{0: <0x?}  {1:^#0}{2: <-0.70E}", v[0], v[1], v[2], v[3]) },
    Site { spec: "　{0:<+#0.70(faint)}{0:<-0x?}{1: >+00X?}$0", n: 2, styl: |v, k| k(stylish::format_args!("　{0:<+#0.70(faint)}{0:<-0x?}{1: >+00X?}$0", v[0], v[1])), std: |v, o| core::write!(o, "　{0:<+#0.70}{0:<-0x?}{1: >+00X?}$0", v[0], v[1]) },
    Site { spec: "  {b: >+#}{c:>+.2(faint)E}\r\n{b: ^#0.0(faint)x?}{{{a: >-300.9(faint)X?}é", n: 3, styl: |v, k| k(stylish::format_args!("  {b: >+#}{c:>+.2(faint)E}\r\n{b: ^#0.0(faint)x?}{{{a: >-300.9(faint)X?}é", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "  {b: >+#}{c:>+.2E}\r\n{b: ^#0.0x?}{{{a: >-300.9X?}é", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "''{3:>-#0.0x?}\r\n{2: <+0.0(faint)X?}&{1:^+66(fg=green)}<!-- -->{3:#07?}{0:<-0o}{1: >-0.4(faint)}\"", n: 4, styl: |v, k| stylish::write!(K(k), "''{3:>-#0.0x?}\r\n{2: <+0.0(faint)X?}&{1:^+66(fg=green)}<!-- -->{3:#07?}{0:<-0o}{1: >-0.4(faint)}\"", v[0], v[1], v[2], v[3]), std: |v, o| core::write!(o, "''{3:>-#0.0x?}\r\n{2: <+0.0X?}&{1:^+66}<!-- -->{3:#07?}{0:<-0o}{1: >-0.4}\"", v[0], v[1], v[2], v[3]) },
    Site { spec: "\r\n{:<+#0(faint)x?}\n", n: 1, styl: |v, k| stylish::writeln!(K(k), "\r\n{:<+#0(faint)x?}\n", v[0]), std: |v, o| core::writeln!(o, "\r\n{:<+#0x?}\n", v[0]) },
    Site { spec: "{3:>+02.1X?}{1:>+#0(fg=green)}$0{1:-05.70(fg=green)E}''{2:#07(faint)x?}é{0:+#012.2}a{{b}}c", n: 4, styl: |v, k| k(stylish::format_args!("{3:>+02.1X?}{1:>+#0(fg=green)}$0{1:-05.70(fg=green)E}''{2:#07(faint)x?}é{0:+#012.2}a{{b}}c", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{3:>+02.1X?}{1:>+#0}$0{1:-05.70E}''{2:#07x?}é{0:+#012.2}a{{b}}c", v[0], v[1], v[2], v[3]) },
    Site { spec: "{0: <-0.70(fg=green)E}<!-- -->{1:+02.0(faint)x?}　{:>+02.1?}x{0: <+0.0x?}  ", n: 2, styl: |v, k| stylish::writeln!(K(k), "{0: <-0.70(fg=green)E}<!-- -->{1:+02.0(faint)x?}　{:>+02.1?}x{0: <+0.0x?}  ", v[0], v[1]), std: |v, o| core::writeln!(o, "{0: <-0.70E}<!-- -->{1:+02.0x?}　{:>+02.1?}x{0: <+0.0x?}  ", v[0], v[1]) },
    Site { spec: "{a:#300.9X?}{c: ^-2.1}%%{c:-#300?}<b>{b:<}a{{b}}c", n: 3, styl: |v, k| k(stylish::format_args!("{a:#300.9X?}{c: ^-2.1}%%{c:-#300?}<b>{b:<}a{{b}}c", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "{a:#300.9X?}{c: ^-2.1}%%{c:-#300?}<b>{b:<}a{{b}}c", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "{{{:-#00X?}}}{:+020}\n{:.70x?}", n: 3, styl: |v, k| k(stylish::format_args!(concat!("{{{:-#00X?}}}{:+0", "20}\n{:.70x?}"), v[0], v[1], v[2])), std: |v, o| core::write!(o, "{{{:-#00X?}}}{:+020}\n{:.70x?}", v[0], v[1], v[2]) },
    Site { spec: "{:<-#0(fg=green)X}\t{:#0.0(faint)?}a{{b}}c", n: 2, styl: |v, k| k(stylish::format_args!("{:<-#0(fg=green)X}\t{:#0.0(faint)?}a{{b}}c", v[0], v[1])), std: |v, o| core::write!(o, "{:<-#0X}\t{:#0.0?}a{{b}}c", v[0], v[1]) },
    Site { spec: "&amp;{3: <0x?}{{}}{1:+2.70}{0:#.4x}: {2:<12(faint)x?}{3:<-#7.9(fg=green)?}é", n: 4, styl: |v, k| k(stylish::format_args!("&amp;{3: <0x?}{{}}{1:+2.70}{0:#.4x}: {2:<12(faint)x?}{3:<-#7.9(fg=green)?}é", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "&amp;{3: <0x?}{{}}{1:+2.70}{0:#.4x}: {2:<12x?}{3:<-#7.9?}é", v[0], v[1], v[2], v[3]) },
    Site { spec: "{0:<+.0(fg=green)e}{0:>+#12.70(fg=green)x?}''{1:>.4x?}{2:>0.9(fg=green)e}\r\n{3:^#0300.4(faint)x?}''", n: 4, styl: |v, k| k(stylish::format_args!("{0:<+.0(fg=green)e}{0:>+#12.70(fg=green)x?}''{1:>.4x?}{2:>0.9(fg=green)e}\r\n{3:^#0300.4(faint)x?}''", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{0:<+.0e}{0:>+#12.70x?}''{1:>.4x?}{2:>0.9e}\r\n{3:^#0300.4x?}''", v[0], v[1], v[2], v[3]) },
    Site { spec: "&amp;{:+0X}{:>#00.0x?}{: ^-00.70o}{: ^-#5(fg=green)X?}é", n: 4, styl: |v, k| k(stylish::format_args!("&amp;{:+0X}{:>#00.0x?}{: ^-00.70o}{: ^-#5(fg=green)X?}é", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "&amp;{:+0X}{:>#00.0x?}{: ^-00.70o}{: ^-#5X?}é", v[0], v[1], v[2], v[3]) },
    Site { spec: "\t{0:12.9X?}x{: >+#300X?}&amp;{0: ^-12E}m0;1{0:^#0300.4(fg=green)X?}{{}}", n: 1, styl: |v, k| k(stylish::format_args!(concat!("\t{0:12.9X?}x{: >+#300X?", "}&amp;{0: ^-12E}m0;1{0:^#0300.4(fg=green)X?}{{}}"), v[0])), std: |v, o| core::write!(o, "\t{0:12.9X?}x{: >+#300X?}&amp;{0: ^-12E}m0;1{0:^#0300.4X?}{{}}", v[0]) },
    Site { spec: "\\n{0: <+(faint)}%%{0:+#2?}\\n{0:>-0x?}{: <+0.0(fg=green)?}", n: 1, styl: |v, k| k(stylish::format_args!("\\n{0: <+(faint)}%%{0:+#2?}\\n{0:>-0x?}{: <+0.0(fg=green)?}", v[0])), std: |v, o| core::write!(o, "\\n{0: <+}%%{0:+#2?}\\n{0:>-0x?}{: <+0.0?}", v[0]) },
    Site { spec: "[{: ^+#2.0(fg=green)X}|{:<-#7.9X}x\\", n: 2, styl: |v, k| stylish::write!(K(k), "[{: ^+#2.0(fg=green)X}|{:<-#7.9X}x\\", v[0], v[1]), std: |v, o| core::write!(o, "[{: ^+#2.0X}|{:<-#7.9X}x\\", v[0], v[1]) },
    Site { spec: "{1: ^07(fg=green)e}{0:>-#0.0(faint)x?}{{", n: 2, styl: |v, k| k(stylish::format_args!("{1: ^07(fg=green)e}{0:>-#0.0(faint)x?}{{", v[0], v[1])), std: |v, o| core::write!(o, "{1: ^07e}{0:>-#0.0x?}{{", v[0], v[1]) },
    Site { spec: "$0{0:+#0?}{0:^#0300.4b}{0:#07?}%%", n: 1, styl: |v, k| k(stylish::format_args!("$0{0:+#0?}{0:^#0300.4b}{0:#07?}%%", v[0])), std: |v, o| core::write!(o, "$0{0:+#0?}{0:^#0300.4b}{0:#07?}%%", v[0]) },
    Site { spec: "m0;1{:>(faint)x?}<b>{0:^+05(fg=green)X?}1:{0:-#300?}{0: >+0?}{0:^-}", n: 1, styl: |v, k| k(stylish::format_args!("m0;1{:>(faint)x?}<b>{0:^+05(fg=green)X?}1:{0:-#300?}{0: >+0?}{0:^-}", v[0])), std: |v, o| core::write!(o, "m0;1{:>x?}<b>{0:^+05X?}1:{0:-#300?}{0: >+0?}{0:^-}", v[0]) },
    Site { spec: "\t{: >#12.0(fg=green)X?}1:", n: 1, styl: |v, k| k(stylish::format_args!(concat!("\t", "{: >#12.0(fg=green)X?}1:"), v[0])), std: |v, o| core::write!(o, "\t{: >#12.0X?}1:", v[0]) },
    Site { spec: "{1: ^-2.1(fg=green)x?}a{{b}}c{2:#.4x}{0:00p}<!-- -->{0:>-#0.0(fg=green)x?}\t", n: 3, styl: |v, k| stylish::write!(K(k), "{1: ^-2.1(fg=green)x?}a{{b}}c{2:#.4x}{0:00p}<!-- -->{0:>-#0.0(fg=green)x?}\t", v[0], v[1], v[2]), std: |v, o| core::write!(o, "{1: ^-2.1x?}a{{b}}c{2:#.4x}{0:00p}<!-- -->{0:>-#0.0x?}\t", v[0], v[1], v[2]) },
    Site { spec: "<!-- -->{1:>1}\n\n{1: <#0.0x?}{0: <-1.70}{0: ^-12(fg=green)x?}[{2: >#0X?}", n: 3, styl: |v, k| k(stylish::format_args!("<!-- -->{1:>1}\n\n{1: <#0.0x?}{0: <-1.70}{0: ^-12(fg=green)x?}[{2: >#0X?}", v[0], v[1], v[2])), std: |v, o| core::write!(o, "<!-- -->{1:>1}\n\n{1: <#0.0x?}{0: <-1.70}{0: ^-12x?}[{2: >#0X?}", v[0], v[1], v[2]) },
    Site { spec: "{: >-#0(fg=green)E}%%{: <-#.70?}{:^+20.4X?}\n\n{: <-02.4X?}", n: 4, styl: |v, k| k(stylish::format_args!("{: >-#0(fg=green)E}%%{: <-#.70?}{:^+20.4X?}\n\n{: <-02.4X?}", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "{: >-#0E}%%{: <-#.70?}{:^+20.4X?}\n\n{: <-02.4X?}", v[0], v[1], v[2], v[3]) },
    Site { spec: "{{}}{c:^#02o}{{{b: <-300x?}\n\n{b:0(fg=green)}\0{b:<-#0(fg=green)}a{{b}}c{a:<#20?}<!-- -->", n: 3, styl: |v, k| k(stylish::format_args!("{{}}{c:^#02o}{{{b: <-300x?}\n\n{b:0(fg=green)}\0{b:<-#0(fg=green)}a{{b}}c{a:<#20?}<!-- -->", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "{{}}{c:^#02o}{{{b: <-300x?}\n\n{b:0}\0{b:<-#0}a{{b}}c{a:<#20?}<!-- -->", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "é{1: <#(fg=green)}\n\n{:>+7}{: >-07.9X?}<!-- -->{: ^#(faint)x?}a{{b}}c{0: ^-00.70?} - {1: ^+#(faint)}\n", n: 3, styl: |v, k| k(stylish::format_args!("é{1: <#(fg=green)}\n\n{:>+7}{: >-07.9X?}<!-- -->{: ^#(faint)x?}a{{b}}c{0: ^-00.70?} - {1: ^+#(faint)}\n", v[0], v[1], v[2])), std: |v, o| core::write!(o, "é{1: <#}\n\n{:>+7}{: >-07.9X?}<!-- -->{: ^#x?}a{{b}}c{0: ^-00.70?} - {1: ^+#}\n", v[0], v[1], v[2]) },
    Site { spec: "{a: ^+#0.9x?}{c: >-#0x?}{b:+#.0(fg=green)}{{}}", n: 3, styl: |v, k| k(stylish::format_args!("{a: ^+#0.9x?}{c: >-#0x?}{b:+#.0(fg=green)}{{}}", a=v[0], b=v[1], c=v[2])), std: |v, o| core::write!(o, "{a: ^+#0.9x?}{c: >-#0x?}{b:+#.0}{{}}", a=v[0], b=v[1], c=v[2]) },
    Site { spec: "x{:<-#X?}{{{3: >+#X?}{: <-02.4(faint)X?}'q'{: ^-0.4(faint)x?}$0{1: <-1.70?}x{0:-#0(faint)}é", n: 4, styl: |v, k| k(stylish::format_args!("x{:<-#X?}{{{3: >+#X?}{: <-02.4(faint)X?}'q'{: ^-0.4(faint)x?}$0{1: <-1.70?}x{0:-#0(faint)}é", v[0], v[1], v[2], v[3])), std: |v, o| core::write!(o, "x{:<-#X?}{{{3: >+#X?}{: <-02.4X?}'q'{: ^-0.4x?}$0{1: <-1.70?}x{0:-#0}é", v[0], v[1], v[2], v[3]) },
    Site { spec: "{:#2(faint)x?}0123456789012345678901234567890123456789012345678901234567890123456789\\", n: 1, styl: |v, k| stylish::write!(K(k), "{:#2(faint)x?}0123456789012345678901234567890123456789012345678901234567890123456789\\", v[0]), std: |v, o| core::write!(o, "{:#2x?}0123456789012345678901234567890123456789012345678901234567890123456789\\", v[0]) },
    Site { spec: "%%{a:-0(fg=green)}{a: ^+0(fg=green)}\r", n: 1, styl: |v, k| k(stylish::format_args!("%%{a:-0(fg=green)}{a: ^+0(fg=green)}\r", a=v[0])), std: |v, o| core::write!(o, "%%{a:-0}{a: ^+0}\r", a=v[0]) },
    Site { spec: "]{a:^+05(faint)}}}{a:<+#02x?}", n: 1, styl: |v, k| k(stylish::format_args!("]{a:^+05(faint)}}}{a:<+#02x?}", a=v[0])), std: |v, o| core::write!(o, "]{a:^+05}}}{a:<+#02x?}", a=v[0]) },
    Site { spec: "{a: >#0(fg=green)X?}{a: >-300.9X?}]{b: >#(fg=green)x?}\r\n", n: 2, styl: |v, k| k(stylish::format_args!("{a: >#0(fg=green)X?}{a: >-300.9X?}]{b: >#(fg=green)x?}\r\n", a=v[0], b=v[1])), std: |v, o| core::write!(o, "{a: >#0X?}{a: >-300.9X?}]{b: >#x?}\r\n", a=v[0], b=v[1]) },
    Site { spec: "a{{b}}c{a:<+.0(fg=green)}{{{a: ^-066}", n: 1, styl: |v, k| k(stylish::format_args!("a{{b}}c{a:<+.0(fg=green)}{{{a: ^-066}", a=v[0])), std: |v, o| core::write!(o, "a{{b}}c{a:<+.0}{{{a: ^-066}", a=v[0]) },
    Site { spec: "{b:>+#12.70(fg=green)}  {a:>#00.0X?}$0{c: ^+#0?}: {d: >#0.0(faint)x?}{b: ^5?}$0", n: 4, styl: |v, k| k(stylish::format_args!("{b:>+#12.70(fg=green)}  {a:>#00.0X?}$0{c: ^+#0?}: {d: >#0.0(faint)x?}{b: ^5?}$0", a=v[0], b=v[1], c=v[2], d=v[3])), std: |v, o| core::write!(o, "{b:>+#12.70}  {a:>#00.0X?}$0{c: ^+#0?}: {d: >#0.0x?}{b: ^5?}$0", a=v[0], b=v[1], c=v[2], d=v[3]) },
    Site { spec: "{: ^05.9(fg=green)x?}]{:<+#02(fg=green)}$0{:^+#66}{:>#066}{{}}{: >-#0} - {:<#.2x?}{0: >-07.9(fg=green)E}", n: 6, styl: |v, k| k(stylish::format_args!("{: ^05.9(fg=green)x?}]{:<+#02(fg=green)}$0{:^+#66}{:>#066}{{}}{: >-#0} - {:<#.2x?}{0: >-07.9(fg=green)E}", v[0], v[1], v[2], v[3], v[4], v[5])), std: |v, o| core::write!(o, "{: ^05.9x?}]{:<+#02}$0{:^+#66}{:>#066}{{}}{: >-#0} - {:<#.2x?}{0: >-07.9E}", v[0], v[1], v[2], v[3], v[4], v[5]) },
    Site { spec: "{5:0(faint)x?}'q'{0:^0.20(fg=green)X?}|{: <-02.4(fg=green)x?}{:-05.70E}\u{feff}{:-(faint)?}\n{8: ^#.20(fg=green)X?}: {:^7.70E}%%{:<-.20X?}{4:+#0X}{: ^+0(fg=green)p}{:-020}  {:-.9b}{12:<-#01.0x?}#;{:<-#01.0X?}<b>{: >+0(faint)}{:<#.2?}{:>(faint)?}#;", n: 13, styl: |v, k| k(stylish::format_args!("{5:0(faint)x?}'q'{0:^0.20(fg=green)X?}|{: <-02.4(fg=green)x?}{:-05.70E}\u{feff}{:-(faint)?}\n{8: ^#.20(fg=green)X?}: {:^7.70E}%%{:<-.20X?}{4:+#0X}{: ^+0(fg=green)p}{:-020}  {:-.9b}{12:<-#01.0x?}#;{:<-#01.0X?}<b>{: >+0(faint)}{:<#.2?}{:>(faint)?}#;", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12])), std: |v, o| core::write!(o, "{5:0x?}'q'{0:^0.20X?}|{: <-02.4x?}{:-05.70E}\u{feff}{:-?}\n{8: ^#.20X?}: {:^7.70E}%%{:<-.20X?}{4:+#0X}{: ^+0p}{:-020}  {:-.9b}{12:<-#01.0x?}#;{:<-#01.0X?}<b>{: >+0}{:<#.2?}{:>?}#;", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12]) },
    Site { spec: "{: ^+#0(fg=green)X?}{:>+#0.9X?}é{:>0?}\\n{:>#00.0(faint)}{: ^-#0(faint)?}\"{: ^+#2.0?}\r\n{:<00.2(faint)X?}", n: 7, styl: |v, k| k(stylish::format_args!("{: ^+#0(fg=green)X?}{:>+#0.9X?}é{:>0?}\\n{:>#00.0(faint)}{: ^-#0(faint)?}\"{: ^+#2.0?}\r\n{:<00.2(faint)X?}", v[0], v[1], v[2], v[3], v[4], v[5], v[6])), std: |v, o| core::write!(o, "{: ^+#0X?}{:>+#0.9X?}é{:>0?}\\n{:>#00.0}{: ^-#0?}\"{: ^+#2.0?}\r\n{:<00.2X?}", v[0], v[1], v[2], v[3], v[4], v[5], v[6]) },
    Site { spec: "{: >#X}{8: >-300.9e}\u{feff}{:#0.0(faint)x?}|{6:<+02(fg=green)?}\n{3:-#00.0(fg=green)?}#;{:12.9(fg=green)X?}\0{5:>0.9(fg=green)}{4: ^+012.20(faint)?}a{{b}}c{10:-0}{6: <#0.0(fg=green)p}{7: <-020x}{9: ^07(fg=green)}", n: 11, styl: |v, k| k(stylish::format_args!("{: >#X}{8: >-300.9e}\u{feff}{:#0.0(faint)x?}|{6:<+02(fg=green)?}\n{3:-#00.0(fg=green)?}#;{:12.9(fg=green)X?}\0{5:>0.9(fg=green)}{4: ^+012.20(faint)?}a{{b}}c{10:-0}{6: <#0.0(fg=green)p}{7: <-020x}{9: ^07(fg=green)}", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10])), std: |v, o| core::write!(o, "{: >#X}{8: >-300.9e}\u{feff}{:#0.0x?}|{6:<+02?}\n{3:-#00.0?}#;{:12.9X?}\0{5:>0.9}{4: ^+012.20?}a{{b}}c{10:-0}{6: <#0.0p}{7: <-020x}{9: ^07}", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10]) },
    Site { spec: "\u{feff}{:<+#02?}{: ^+#0.9(fg=green)?}{:>07.9X?}m0;1{: <0(fg=green)?}\r{:#00.1}é{:^b}é{:<+#.4(faint)b}a{{b}}c{:<-#1?}1:{:#300.9X?}1:{: >#.0?}\0", n: 10, styl: |v, k| k(stylish::format_args!("\u{feff}{:<+#02?}{: ^+#0.9(fg=green)?}{:>07.9X?}m0;1{: <0(fg=green)?}\r{:#00.1}é{:^b}é{:<+#.4(faint)b}a{{b}}c{:<-#1?}1:{:#300.9X?}1:{: >#.0?}\0", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9])), std: |v, o| core::write!(o, "\u{feff}{:<+#02?}{: ^+#0.9?}{:>07.9X?}m0;1{: <0?}\r{:#00.1}é{:^b}é{:<+#.4b}a{{b}}c{:<-#1?}1:{:#300.9X?}1:{: >#.0?}\0", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]) },
    Site { spec: "　{7:-#}\\{1: >#12.0x?}\t{3:-.9(faint)x?}x{4:>+#12.70?}\"{2:>-#0.0(fg=green)e}<!-- -->{6:0X?}{0: >+00e}\"{5: >#0.0(fg=green)}a{{b}}c", n: 8, styl: |v, k| k(stylish::format_args!("　{7:-#}\\{1: >#12.0x?}\t{3:-.9(faint)x?}x{4:>+#12.70?}\"{2:>-#0.0(fg=green)e}<!-- -->{6:0X?}{0: >+00e}\"{5: >#0.0(fg=green)}a{{b}}c", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7])), std: |v, o| core::write!(o, "　{7:-#}\\{1: >#12.0x?}\t{3:-.9x?}x{4:>+#12.70?}\"{2:>-#0.0e}<!-- -->{6:0X?}{0: >+00e}\"{5: >#0.0}a{{b}}c", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]) },
    Site { spec: ": {10:#300.9(fg=green)x}&{: <-1.70b}{{{: >-#(faint)E}{: >+0(faint)X?}\n\n{:+5(fg=green)X?}{:<+66.9X?}{6: <#E}{: ^-#0(fg=green)}\"{9:>-#.2(fg=green)?}}}{8:^+#02X?}\r{9:-#0.4X?}<b>{11:^+.1(fg=green)}{7:<-0?}<!-- -->", n: 12, styl: |v, k| k(stylish::format_args!(": {10:#300.9(fg=green)x}&{: <-1.70b}{{{: >-#(faint)E}{: >+0(faint)X?}\n\n{:+5(fg=green)X?}{:<+66.9X?}{6: <#E}{: ^-#0(fg=green)}\"{9:>-#.2(fg=green)?}}}{8:^+#02X?}\r{9:-#0.4X?}<b>{11:^+.1(fg=green)}{7:<-0?}<!-- -->", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11])), std: |v, o| core::write!(o, ": {10:#300.9x}&{: <-1.70b}{{{: >-#E}{: >+0X?}\n\n{:+5X?}{:<+66.9X?}{6: <#E}{: ^-#0}\"{9:>-#.2?}}}{8:^+#02X?}\r{9:-#0.4X?}<b>{11:^+.1}{7:<-0?}<!-- -->", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]) },
    Site { spec: "<b>{6:#.4(fg=green)X?}{6:-#00.0x?}{: ^-0(faint)x?}\n\n{5:}''{4:+#0.9(fg=green)x}$0{: >-07.9(faint)X?}{:^#66.4(fg=green)x?}{:>+#02x?}|{7:<(faint)b}", n: 8, styl: |v, k| k(stylish::format_args!("<b>{6:#.4(fg=green)X?}{6:-#00.0x?}{: ^-0(faint)x?}\n\n{5:}''{4:+#0.9(fg=green)x}$0{: >-07.9(faint)X?}{:^#66.4(fg=green)x?}{:>+#02x?}|{7:<(faint)b}", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7])), std: |v, o| core::write!(o, "<b>{6:#.4X?}{6:-#00.0x?}{: ^-0x?}\n\n{5:}''{4:+#0.9x}$0{: >-07.9X?}{:^#66.4x?}{:>+#02x?}|{7:<b}", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]) },
    Site { spec: "{:>-#02.1(faint)p}1:{: <-#0.2(faint)x?}{: >+#300(fg=green)X?}{:+#2X?}: {:+02.0}$0{:+#012.2(fg=green)?}", n: 6, styl: |v, k| stylish::write!(K(k), "{:>-#02.1(faint)p}1:{: <-#0.2(faint)x?}{: >+#300(fg=green)X?}{:+#2X?}: {:+02.0}$0{:+#012.2(fg=green)?}", v[0], v[1], v[2], v[3], v[4], v[5]), std: |v, o| core::write!(o, "{:>-#02.1p}1:{: <-#0.2x?}{: >+#300X?}{:+#2X?}: {:+02.0}$0{:+#012.2?}", v[0], v[1], v[2], v[3], v[4], v[5]) },
    Site { spec: "\u{feff}{4: ^07e}{0:+#012.2(fg=green)x?}#;{8:-5?}{{{2:#0(fg=green)p}{9: ^-#0.20(fg=green)x?}a{{b}}c{10:<05(fg=green)}a{{b}}c{11: >-02(fg=green)E}&{9:^+#.0}<b>{5:<+66.9X?}{{{7:<-#0x?}[{0:^+66x?}{6:<00.2?}]{3: <#0.0}{1:>0.9(fg=green)e}", n: 12, styl: |v, k| k(stylish::format_args!("\u{feff}{4: ^07e}{0:+#012.2(fg=green)x?}#;{8:-5?}{{{2:#0(fg=green)p}{9: ^-#0.20(fg=green)x?}a{{b}}c{10:<05(fg=green)}a{{b}}c{11: >-02(fg=green)E}&{9:^+#.0}<b>{5:<+66.9X?}{{{7:<-#0x?}[{0:^+66x?}{6:<00.2?}]{3: <#0.0}{1:>0.9(fg=green)e}", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11])), std: |v, o| core::write!(o, "\u{feff}{4: ^07e}{0:+#012.2x?}#;{8:-5?}{{{2:#0p}{9: ^-#0.20x?}a{{b}}c{10:<05}a{{b}}c{11: >-02E}&{9:^+#.0}<b>{5:<+66.9X?}{{{7:<-#0x?}[{0:^+66x?}{6:<00.2?}]{3: <#0.0}{1:>0.9e}", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]) },
    Site { spec: "{2:12.9(faint)x?}m0;1{8: >-#0X?}{9: >#0.0E}{12: <+#?}{13: ^-#2.2(fg=green)X?}%%{3:^0(faint)x}&amp;{8:00}{0: ^-0.4?}{6:+020x?}\"{3: ^-0.4X}{5:#0(fg=green)X?}|{7:>-.2?}{11:-0.20(fg=green)x?}é{4:>0.9?}}}{1:<+#0e}{10: ^+0(faint)}<!-- -->", n: 14, styl: |v, k| k(stylish::format_args!(concat!("{", "2:12.9(faint)x?}m0;1{8: >-#0X?}{9: >#0.0E}{12: <+#?}{13: ^-#2.2(fg=green)X?}%%{3:^0(faint)x}&amp;{8:00}{0: ^-0.4?}{6:+020x?}\"{3: ^-0.4X}{5:#0(fg=green)X?}|{7:>-.2?}{11:-0.20(fg=green)x?}é{4:>0.9?}}}{1:<+#0e}{10: ^+0(faint)}<!-- -->"), v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13])), std: |v, o| core::write!(o, "{2:12.9x?}m0;1{8: >-#0X?}{9: >#0.0E}{12: <+#?}{13: ^-#2.2X?}%%{3:^0x}&amp;{8:00}{0: ^-0.4?}{6:+020x?}\"{3: ^-0.4X}{5:#0X?}|{7:>-.2?}{11:-0.20x?}é{4:>0.9?}}}{1:<+#0e}{10: ^+0}<!-- -->", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13]) },
    Site { spec: "\n\n{:>-.2X?}{:+#(faint)?}|{:-(faint)x?}{:00(faint)?}{: >+#(fg=green)}$0{:^+20.4E}{:<-#7.9(fg=green)X?}\n{:+2.70(fg=green)?}{:>-#0.0x?}{{{:-05.70?}a{{b}}c{: <-1.70b}{: >#x?}|", n: 12, styl: |v, k| k(stylish::format_args!("\n\n{:>-.2X?}{:+#(faint)?}|{:-(faint)x?}{:00(faint)?}{: >+#(fg=green)}$0{:^+20.4E}{:<-#7.9(fg=green)X?}\n{:+2.70(fg=green)?}{:>-#0.0x?}{{{:-05.70?}a{{b}}c{: <-1.70b}{: >#x?}|", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11])), std: |v, o| core::write!(o, "\n\n{:>-.2X?}{:+#?}|{:-x?}{:00?}{: >+#}$0{:^+20.4E}{:<-#7.9X?}\n{:+2.70?}{:>-#0.0x?}{{{:-05.70?}a{{b}}c{: <-1.70b}{: >#x?}|", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]) },
    Site { spec: "<!-- -->{0:-#1.20}\0{5:^.20(fg=green)}{4:^7.70E}\r\n{2:<+#02(fg=green)?}x{1:>+02.1X?}#;{1: >+00X?}{3:^+#02(fg=green)x?}]", n: 6, styl: |v, k| k(stylish::format_args!("<!-- -->{0:-#1.20}\0{5:^.20(fg=green)}{4:^7.70E}\r\n{2:<+#02(fg=green)?}x{1:>+02.1X?}#;{1: >+00X?}{3:^+#02(fg=green)x?}]", v[0], v[1], v[2], v[3], v[4], v[5])), std: |v, o| core::write!(o, "<!-- -->{0:-#1.20}\0{5:^.20}{4:^7.70E}\r\n{2:<+#02?}x{1:>+02.1X?}#;{1: >+00X?}{3:^+#02x?}]", v[0], v[1], v[2], v[3], v[4], v[5]) },
    Site { spec: "&{9: ^+#07.0}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {3:>#066X?}\\n{2: ^+#07.0X?}{7:^-#01.70x?}{6:>-#0.9}{5:<00.2(fg=green)X?}\n\n{4: >-300.9(fg=green)x?}{10:>-0}{{}}{0:-#00.0(faint)e}{11:<#066}{1:>+.2(faint)x?} - {8:>.4(faint)x?}", n: 12, styl: |v, k| k(stylish::format_args!("&{9: ^+#07.0}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {3:>#066X?}\\n{2: ^+#07.0X?}{7:^-#01.70x?}{6:>-#0.9}{5:<00.2(fg=green)X?}\n\n{4: >-300.9(fg=green)x?}{10:>-0}{{}}{0:-#00.0(faint)e}{11:<#066}{1:>+.2(faint)x?} - {8:>.4(faint)x?}", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11])), std: |v, o| core::write!(o, "&{9: ^+#07.0}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {3:>#066X?}\\n{2: ^+#07.0X?}{7:^-#01.70x?}{6:>-#0.9}{5:<00.2X?}\n\n{4: >-300.9x?}{10:>-0}{{}}{0:-#00.0e}{11:<#066}{1:>+.2x?} - {8:>.4x?}", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]) },
    Site { spec: "\r\n{:x}　{:^-#}: {:#00.1(faint)?}{:-020(faint)x?}{:>+#02?}\n{:>-#0.9(faint)}<b>", n: 6, styl: |v, k| k(stylish::format_args!("\r\n{:x}　{:^-#}: {:#00.1(faint)?}{:-020(faint)x?}{:>+#02?}\n{:>-#0.9(faint)}<b>", v[0], v[1], v[2], v[3], v[4], v[5])), std: |v, o| core::write!(o, "\r\n{:x}　{:^-#}: {:#00.1?}{:-020x?}{:>+#02?}\n{:>-#0.9}<b>", v[0], v[1], v[2], v[3], v[4], v[5]) },
    Site { spec: " - {3:-020(faint)?}[{0:#0}{2: ^-.20(faint)?}&{4: ^-00.70(faint)X?}{0:^.20(faint)e}{2:#00.1}{1:<(faint)x?}\n", n: 5, styl: |v, k| k(stylish::format_args!(concat!(" - {3:-020(faint)?}[{0:#0}{2: ^-.20(faint)?}&{4: ^-00.70(faint)X?}{0:^.20(faint)e}{", "2:#00.1}{1:<(faint)x?}\n"), v[0], v[1], v[2], v[3], v[4])), std: |v, o| core::write!(o, " - {3:-020?}[{0:#0}{2: ^-.20?}&{4: ^-00.70X?}{0:^.20e}{2:#00.1}{1:<x?}\n", v[0], v[1], v[2], v[3], v[4]) },
    Site { spec: "\r{4:<#20(fg=green)}: {2:#0}\r\n{5:<+.0(fg=green)}\n{4: <-0.70(faint)x?}\n{1:>07.9(fg=green)x?}{0:^-#01.70?}{6:>-.2(fg=green)X?}&amp;{3: ^-12(fg=green)E}x{9: <-1.70(fg=green)}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {7: ^+#07.0(faint)X?}a{{b}}c{8: <#01.4(fg=green)X?}{4: ^#(faint)x}\0", n: 10, styl: |v, k| k(stylish::format_args!("\r{4:<#20(fg=green)}: {2:#0}\r\n{5:<+.0(fg=green)}\n{4: <-0.70(faint)x?}\n{1:>07.9(fg=green)x?}{0:^-#01.70?}{6:>-.2(fg=green)X?}&amp;{3: ^-12(fg=green)E}x{9: <-1.70(fg=green)}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {7: ^+#07.0(faint)X?}a{{b}}c{8: <#01.4(fg=green)X?}{4: ^#(faint)x}\0", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9])), std: |v, o| core::write!(o, "\r{4:<#20}: {2:#0}\r\n{5:<+.0}\n{4: <-0.70x?}\n{1:>07.9x?}{0:^-#01.70?}{6:>-.2X?}&amp;{3: ^-12E}x{9: <-1.70}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {7: ^+#07.0X?}a{{b}}c{8: <#01.4X?}{4: ^#x}\0", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]) },
    Site { spec: "\n\n{0:>+#02(fg=green)x?}]{4:>+0.70X?}{10: <#01.4}{11:<+00.20(fg=green)E}{9: ^#.20?}é{1: <+0(faint)x?}\t{7:<-#0X?}  {2: <-#.70(fg=green)X}{5:+2.70(fg=green)X?}{6: >+#?}|{8:<-#01.0(fg=green)X?}%%{3: >-0(faint)X?}\0{5:<-.20?}", n: 12, styl: |v, k| k(stylish::format_args!("\n\n{0:>+#02(fg=green)x?}]{4:>+0.70X?}{10: <#01.4}{11:<+00.20(fg=green)E}{9: ^#.20?}é{1: <+0(faint)x?}\t{7:<-#0X?}  {2: <-#.70(fg=green)X}{5:+2.70(fg=green)X?}{6: >+#?}|{8:<-#01.0(fg=green)X?}%%{3: >-0(faint)X?}\0{5:<-.20?}", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11])), std: |v, o| core::write!(o, "\n\n{0:>+#02x?}]{4:>+0.70X?}{10: <#01.4}{11:<+00.20E}{9: ^#.20?}é{1: <+0x?}\t{7:<-#0X?}  {2: <-#.70X}{5:+2.70X?}{6: >+#?}|{8:<-#01.0X?}%%{3: >-0X?}\0{5:<-.20?}", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]) },
    Site { spec: "&amp;{4:<05(fg=green)}''{3: >+7.2}{: >#0(faint)b}|{: <-#.70(fg=green)X?}{4:<+66.9x?}{:<+.0(faint)?}", n: 5, styl: |v, k| k(stylish::format_args!("&amp;{4:<05(fg=green)}''{3: >+7.2}{: >#0(faint)b}|{: <-#.70(fg=green)X?}{4:<+66.9x?}{:<+.0(faint)?}", v[0], v[1], v[2], v[3], v[4])), std: |v, o| core::write!(o, "&amp;{4:<05}''{3: >+7.2}{: >#0b}|{: <-#.70X?}{4:<+66.9x?}{:<+.0?}", v[0], v[1], v[2], v[3], v[4]) },
    Site { spec: "{7: >#(fg=green)X}{12:+(fg=green)}{: ^+#2.0?}$0{3: >#.0?}{: <-020}%%{6:-#00(fg=green)X?}<!-- -->{10:>-#02.1(fg=green)p}{: <+12(faint)?}é{8: >+#300(faint)X?}}}{12: <-#.70(fg=green)X?}{{{11:^-?}{7: >+(fg=green)E}{9: ^-00.70(faint)}{5:<-0(fg=green)}{13:<00.2X?}\u{feff}{4:>-#.2(fg=green)o}x\n", n: 14, styl: |v, k| stylish::writeln!(K(k), "{7: >#(fg=green)X}{12:+(fg=green)}{: ^+#2.0?}$0{3: >#.0?}{: <-020}%%{6:-#00(fg=green)X?}<!-- -->{10:>-#02.1(fg=green)p}{: <+12(faint)?}é{8: >+#300(faint)X?}}}{12: <-#.70(fg=green)X?}{{{11:^-?}{7: >+(fg=green)E}{9: ^-00.70(faint)}{5:<-0(fg=green)}{13:<00.2X?}\u{feff}{4:>-#.2(fg=green)o}x\n", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13]), std: |v, o| core::writeln!(o, "{7: >#X}{12:+}{: ^+#2.0?}$0{3: >#.0?}{: <-020}%%{6:-#00X?}<!-- -->{10:>-#02.1p}{: <+12?}é{8: >+#300X?}}}{12: <-#.70X?}{{{11:^-?}{7: >+E}{9: ^-00.70}{5:<-0}{13:<00.2X?}\u{feff}{4:>-#.2o}x\n", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13]) },
];

