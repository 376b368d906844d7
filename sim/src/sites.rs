// @generated by gen_sites.py
use stylish::{Display, Formatter, Result};
use crate::{tree::Attr, val::Val};

/// `{:(attributes)s}` for every attribute combination.
pub fn attr_s(i: usize, f: &mut Formatter<'_>, d: &dyn Display) -> Result {
    match i {
        0 => f.write_fmt(stylish::format_args!("{:()s}", d)),
        1 => f.write_fmt(stylish::format_args!("{:(normal)s}", d)),
        2 => f.write_fmt(stylish::format_args!("{:(bold)s}", d)),
        3 => f.write_fmt(stylish::format_args!("{:(faint)s}", d)),
        4 => f.write_fmt(stylish::format_args!("{:(bg=default)s}", d)),
        5 => f.write_fmt(stylish::format_args!("{:(normal,bg=default,)s}", d)),
        6 => f.write_fmt(stylish::format_args!("{:(bg=default,bold,)s}", d)),
        7 => f.write_fmt(stylish::format_args!("{:(bg=default,faint,)s}", d)),
        8 => f.write_fmt(stylish::format_args!("{:(bg=black)s}", d)),
        9 => f.write_fmt(stylish::format_args!("{:(bg=black,normal)s}", d)),
        10 => f.write_fmt(stylish::format_args!("{:(bg=black,bold)s}", d)),
        11 => f.write_fmt(stylish::format_args!("{:(bg=black,faint)s}", d)),
        12 => f.write_fmt(stylish::format_args!("{:(bg=red)s}", d)),
        13 => f.write_fmt(stylish::format_args!("{:(normal,bg=red)s}", d)),
        14 => f.write_fmt(stylish::format_args!("{:(bold,bg=red)s}", d)),
        15 => f.write_fmt(stylish::format_args!("{:(bg=red,faint)s}", d)),
        16 => f.write_fmt(stylish::format_args!("{:(bg=green)s}", d)),
        17 => f.write_fmt(stylish::format_args!("{:(bg=green,normal)s}", d)),
        18 => f.write_fmt(stylish::format_args!("{:(bg=green,bold)s}", d)),
        19 => f.write_fmt(stylish::format_args!("{:(bg=green,faint)s}", d)),
        20 => f.write_fmt(stylish::format_args!("{:(bg=yellow)s}", d)),
        21 => f.write_fmt(stylish::format_args!("{:(bg=yellow,normal)s}", d)),
        22 => f.write_fmt(stylish::format_args!("{:(bold,bg=yellow)s}", d)),
        23 => f.write_fmt(stylish::format_args!("{:(bg=yellow,faint)s}", d)),
        24 => f.write_fmt(stylish::format_args!("{:(bg=blue)s}", d)),
        25 => f.write_fmt(stylish::format_args!("{:(bg=blue,normal)s}", d)),
        26 => f.write_fmt(stylish::format_args!("{:(bold,bg=blue)s}", d)),
        27 => f.write_fmt(stylish::format_args!("{:(faint,bg=blue)s}", d)),
        28 => f.write_fmt(stylish::format_args!("{:(bg=magenta)s}", d)),
        29 => f.write_fmt(stylish::format_args!("{:(bg=magenta,normal)s}", d)),
        30 => f.write_fmt(stylish::format_args!("{:(bg=magenta,bold)s}", d)),
        31 => f.write_fmt(stylish::format_args!("{:(bg=magenta,faint)s}", d)),
        32 => f.write_fmt(stylish::format_args!("{:(bg=cyan)s}", d)),
        33 => f.write_fmt(stylish::format_args!("{:(bg=cyan,normal,)s}", d)),
        34 => f.write_fmt(stylish::format_args!("{:(bold,bg=cyan,)s}", d)),
        35 => f.write_fmt(stylish::format_args!("{:(faint,bg=cyan)s}", d)),
        36 => f.write_fmt(stylish::format_args!("{:(bg=white)s}", d)),
        37 => f.write_fmt(stylish::format_args!("{:(normal,bg=white)s}", d)),
        38 => f.write_fmt(stylish::format_args!("{:(bg=white,bold)s}", d)),
        39 => f.write_fmt(stylish::format_args!("{:(faint,bg=white)s}", d)),
        40 => f.write_fmt(stylish::format_args!("{:(fg=default)s}", d)),
        41 => f.write_fmt(stylish::format_args!("{:(normal,fg=default)s}", d)),
        42 => f.write_fmt(stylish::format_args!("{:(fg=default,bold)s}", d)),
        43 => f.write_fmt(stylish::format_args!("{:(fg=default,faint)s}", d)),
        44 => f.write_fmt(stylish::format_args!("{:(fg=default,bg=default,)s}", d)),
        45 => f.write_fmt(stylish::format_args!("{:(bg=default,normal,fg=default)s}", d)),
        46 => f.write_fmt(stylish::format_args!("{:(bg=default,bold,fg=default)s}", d)),
        47 => f.write_fmt(stylish::format_args!("{:(fg=default,faint,bg=default)s}", d)),
        48 => f.write_fmt(stylish::format_args!("{:(fg=default,bg=black)s}", d)),
        49 => f.write_fmt(stylish::format_args!("{:(normal,fg=default,bg=black)s}", d)),
        50 => f.write_fmt(stylish::format_args!("{:(fg=default,bold,bg=black)s}", d)),
        51 => f.write_fmt(stylish::format_args!("{:(faint,fg=default,bg=black)s}", d)),
        52 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=default)s}", d)),
        53 => f.write_fmt(stylish::format_args!("{:(bg=red,normal,fg=default)s}", d)),
        54 => f.write_fmt(stylish::format_args!("{:(bg=red,bold,fg=default)s}", d)),
        55 => f.write_fmt(stylish::format_args!("{:(fg=default,bg=red,faint)s}", d)),
        56 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=default,)s}", d)),
        57 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=default,normal)s}", d)),
        58 => f.write_fmt(stylish::format_args!("{:(bg=green,bold,fg=default)s}", d)),
        59 => f.write_fmt(stylish::format_args!("{:(faint,fg=default,bg=green)s}", d)),
        60 => f.write_fmt(stylish::format_args!("{:(bg=yellow,fg=default)s}", d)),
        61 => f.write_fmt(stylish::format_args!("{:(normal,bg=yellow,fg=default,)s}", d)),
        62 => f.write_fmt(stylish::format_args!("{:(bg=yellow,bold,fg=default)s}", d)),
        63 => f.write_fmt(stylish::format_args!("{:(bg=yellow,faint,fg=default)s}", d)),
        64 => f.write_fmt(stylish::format_args!("{:(fg=default,bg=blue)s}", d)),
        65 => f.write_fmt(stylish::format_args!("{:(normal,bg=blue,fg=default,)s}", d)),
        66 => f.write_fmt(stylish::format_args!("{:(bold,bg=blue,fg=default)s}", d)),
        67 => f.write_fmt(stylish::format_args!("{:(fg=default,bg=blue,faint,)s}", d)),
        68 => f.write_fmt(stylish::format_args!("{:(bg=magenta,fg=default)s}", d)),
        69 => f.write_fmt(stylish::format_args!("{:(bg=magenta,fg=default,normal,)s}", d)),
        70 => f.write_fmt(stylish::format_args!("{:(bg=magenta,bold,fg=default)s}", d)),
        71 => f.write_fmt(stylish::format_args!("{:(fg=default,bg=magenta,faint)s}", d)),
        72 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=default)s}", d)),
        73 => f.write_fmt(stylish::format_args!("{:(fg=default,normal,bg=cyan)s}", d)),
        74 => f.write_fmt(stylish::format_args!("{:(fg=default,bold,bg=cyan)s}", d)),
        75 => f.write_fmt(stylish::format_args!("{:(faint,bg=cyan,fg=default)s}", d)),
        76 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=default)s}", d)),
        77 => f.write_fmt(stylish::format_args!("{:(fg=default,normal,bg=white)s}", d)),
        78 => f.write_fmt(stylish::format_args!("{:(bold,bg=white,fg=default)s}", d)),
        79 => f.write_fmt(stylish::format_args!("{:(faint,fg=default,bg=white)s}", d)),
        80 => f.write_fmt(stylish::format_args!("{:(fg=black)s}", d)),
        81 => f.write_fmt(stylish::format_args!("{:(normal,fg=black)s}", d)),
        82 => f.write_fmt(stylish::format_args!("{:(fg=black,bold)s}", d)),
        83 => f.write_fmt(stylish::format_args!("{:(faint,fg=black)s}", d)),
        84 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=black)s}", d)),
        85 => f.write_fmt(stylish::format_args!("{:(bg=default,normal,fg=black)s}", d)),
        86 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=black,bold)s}", d)),
        87 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=black,faint,)s}", d)),
        88 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=black)s}", d)),
        89 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=black,normal)s}", d)),
        90 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=black,bold,)s}", d)),
        91 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=black,faint)s}", d)),
        92 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=black,)s}", d)),
        93 => f.write_fmt(stylish::format_args!("{:(fg=black,normal,bg=red,)s}", d)),
        94 => f.write_fmt(stylish::format_args!("{:(bold,fg=black,bg=red)s}", d)),
        95 => f.write_fmt(stylish::format_args!("{:(fg=black,faint,bg=red)s}", d)),
        96 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=green)s}", d)),
        97 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=black,normal)s}", d)),
        98 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=green,bold)s}", d)),
        99 => f.write_fmt(stylish::format_args!("{:(faint,bg=green,fg=black)s}", d)),
        100 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=yellow)s}", d)),
        101 => f.write_fmt(stylish::format_args!("{:(normal,bg=yellow,fg=black)s}", d)),
        102 => f.write_fmt(stylish::format_args!("{:(bold,fg=black,bg=yellow)s}", d)),
        103 => f.write_fmt(stylish::format_args!("{:(faint,bg=yellow,fg=black,)s}", d)),
        104 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=black,)s}", d)),
        105 => f.write_fmt(stylish::format_args!("{:(normal,bg=blue,fg=black)s}", d)),
        106 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=blue,bold)s}", d)),
        107 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=black,faint)s}", d)),
        108 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=magenta)s}", d)),
        109 => f.write_fmt(stylish::format_args!("{:(fg=black,normal,bg=magenta)s}", d)),
        110 => f.write_fmt(stylish::format_args!("{:(bg=magenta,bold,fg=black)s}", d)),
        111 => f.write_fmt(stylish::format_args!("{:(fg=black,faint,bg=magenta)s}", d)),
        112 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=cyan)s}", d)),
        113 => f.write_fmt(stylish::format_args!("{:(bg=cyan,normal,fg=black)s}", d)),
        114 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=cyan,bold)s}", d)),
        115 => f.write_fmt(stylish::format_args!("{:(faint,fg=black,bg=cyan,)s}", d)),
        116 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=white)s}", d)),
        117 => f.write_fmt(stylish::format_args!("{:(bg=white,normal,fg=black)s}", d)),
        118 => f.write_fmt(stylish::format_args!("{:(bold,fg=black,bg=white,)s}", d)),
        119 => f.write_fmt(stylish::format_args!("{:(fg=black,bg=white,faint)s}", d)),
        120 => f.write_fmt(stylish::format_args!("{:(fg=red)s}", d)),
        121 => f.write_fmt(stylish::format_args!("{:(fg=red,normal)s}", d)),
        122 => f.write_fmt(stylish::format_args!("{:(bold,fg=red,)s}", d)),
        123 => f.write_fmt(stylish::format_args!("{:(fg=red,faint)s}", d)),
        124 => f.write_fmt(stylish::format_args!("{:(fg=red,bg=default,)s}", d)),
        125 => f.write_fmt(stylish::format_args!("{:(fg=red,normal,bg=default)s}", d)),
        126 => f.write_fmt(stylish::format_args!("{:(fg=red,bold,bg=default,)s}", d)),
        127 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=red,faint)s}", d)),
        128 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=red,)s}", d)),
        129 => f.write_fmt(stylish::format_args!("{:(normal,bg=black,fg=red)s}", d)),
        130 => f.write_fmt(stylish::format_args!("{:(fg=red,bold,bg=black)s}", d)),
        131 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=red,faint)s}", d)),
        132 => f.write_fmt(stylish::format_args!("{:(fg=red,bg=red)s}", d)),
        133 => f.write_fmt(stylish::format_args!("{:(bg=red,normal,fg=red,)s}", d)),
        134 => f.write_fmt(stylish::format_args!("{:(bold,fg=red,bg=red)s}", d)),
        135 => f.write_fmt(stylish::format_args!("{:(faint,fg=red,bg=red)s}", d)),
        136 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=red)s}", d)),
        137 => f.write_fmt(stylish::format_args!("{:(normal,bg=green,fg=red)s}", d)),
        138 => f.write_fmt(stylish::format_args!("{:(bold,bg=green,fg=red)s}", d)),
        139 => f.write_fmt(stylish::format_args!("{:(bg=green,faint,fg=red)s}", d)),
        140 => f.write_fmt(stylish::format_args!("{:(fg=red,bg=yellow,)s}", d)),
        141 => f.write_fmt(stylish::format_args!("{:(bg=yellow,normal,fg=red)s}", d)),
        142 => f.write_fmt(stylish::format_args!("{:(bg=yellow,bold,fg=red)s}", d)),
        143 => f.write_fmt(stylish::format_args!("{:(fg=red,faint,bg=yellow)s}", d)),
        144 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=red)s}", d)),
        145 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=red,normal)s}", d)),
        146 => f.write_fmt(stylish::format_args!("{:(fg=red,bold,bg=blue,)s}", d)),
        147 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=red,faint)s}", d)),
        148 => f.write_fmt(stylish::format_args!("{:(bg=magenta,fg=red)s}", d)),
        149 => f.write_fmt(stylish::format_args!("{:(normal,bg=magenta,fg=red)s}", d)),
        150 => f.write_fmt(stylish::format_args!("{:(fg=red,bold,bg=magenta)s}", d)),
        151 => f.write_fmt(stylish::format_args!("{:(fg=red,bg=magenta,faint)s}", d)),
        152 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=red)s}", d)),
        153 => f.write_fmt(stylish::format_args!("{:(bg=cyan,normal,fg=red)s}", d)),
        154 => f.write_fmt(stylish::format_args!("{:(bg=cyan,bold,fg=red)s}", d)),
        155 => f.write_fmt(stylish::format_args!("{:(fg=red,faint,bg=cyan)s}", d)),
        156 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=red,)s}", d)),
        157 => f.write_fmt(stylish::format_args!("{:(fg=red,normal,bg=white,)s}", d)),
        158 => f.write_fmt(stylish::format_args!("{:(fg=red,bold,bg=white)s}", d)),
        159 => f.write_fmt(stylish::format_args!("{:(bg=white,faint,fg=red)s}", d)),
        160 => f.write_fmt(stylish::format_args!("{:(fg=green)s}", d)),
        161 => f.write_fmt(stylish::format_args!("{:(normal,fg=green)s}", d)),
        162 => f.write_fmt(stylish::format_args!("{:(fg=green,bold)s}", d)),
        163 => f.write_fmt(stylish::format_args!("{:(faint,fg=green)s}", d)),
        164 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=green)s}", d)),
        165 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=default,normal,)s}", d)),
        166 => f.write_fmt(stylish::format_args!("{:(bold,bg=default,fg=green)s}", d)),
        167 => f.write_fmt(stylish::format_args!("{:(faint,bg=default,fg=green)s}", d)),
        168 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=green)s}", d)),
        169 => f.write_fmt(stylish::format_args!("{:(normal,fg=green,bg=black)s}", d)),
        170 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=black,bold)s}", d)),
        171 => f.write_fmt(stylish::format_args!("{:(faint,fg=green,bg=black)s}", d)),
        172 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=green,)s}", d)),
        173 => f.write_fmt(stylish::format_args!("{:(bg=red,normal,fg=green,)s}", d)),
        174 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=red,bold)s}", d)),
        175 => f.write_fmt(stylish::format_args!("{:(bg=red,faint,fg=green,)s}", d)),
        176 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=green)s}", d)),
        177 => f.write_fmt(stylish::format_args!("{:(fg=green,normal,bg=green,)s}", d)),
        178 => f.write_fmt(stylish::format_args!("{:(bg=green,bold,fg=green)s}", d)),
        179 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=green,faint)s}", d)),
        180 => f.write_fmt(stylish::format_args!("{:(bg=yellow,fg=green)s}", d)),
        181 => f.write_fmt(stylish::format_args!("{:(normal,fg=green,bg=yellow)s}", d)),
        182 => f.write_fmt(stylish::format_args!("{:(bg=yellow,bold,fg=green)s}", d)),
        183 => f.write_fmt(stylish::format_args!("{:(fg=green,faint,bg=yellow)s}", d)),
        184 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=blue)s}", d)),
        185 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=blue,normal)s}", d)),
        186 => f.write_fmt(stylish::format_args!("{:(bold,fg=green,bg=blue)s}", d)),
        187 => f.write_fmt(stylish::format_args!("{:(faint,bg=blue,fg=green)s}", d)),
        188 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=magenta)s}", d)),
        189 => f.write_fmt(stylish::format_args!("{:(normal,fg=green,bg=magenta)s}", d)),
        190 => f.write_fmt(stylish::format_args!("{:(bg=magenta,bold,fg=green)s}", d)),
        191 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=magenta,faint)s}", d)),
        192 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=cyan)s}", d)),
        193 => f.write_fmt(stylish::format_args!("{:(bg=cyan,normal,fg=green)s}", d)),
        194 => f.write_fmt(stylish::format_args!("{:(bold,bg=cyan,fg=green)s}", d)),
        195 => f.write_fmt(stylish::format_args!("{:(fg=green,faint,bg=cyan)s}", d)),
        196 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=white)s}", d)),
        197 => f.write_fmt(stylish::format_args!("{:(normal,bg=white,fg=green,)s}", d)),
        198 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=white,bold,)s}", d)),
        199 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=green,faint)s}", d)),
        200 => f.write_fmt(stylish::format_args!("{:(fg=yellow)s}", d)),
        201 => f.write_fmt(stylish::format_args!("{:(normal,fg=yellow)s}", d)),
        202 => f.write_fmt(stylish::format_args!("{:(bold,fg=yellow)s}", d)),
        203 => f.write_fmt(stylish::format_args!("{:(fg=yellow,faint)s}", d)),
        204 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=yellow)s}", d)),
        205 => f.write_fmt(stylish::format_args!("{:(normal,fg=yellow,bg=default)s}", d)),
        206 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=yellow,bold)s}", d)),
        207 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=yellow,faint)s}", d)),
        208 => f.write_fmt(stylish::format_args!("{:(fg=yellow,bg=black)s}", d)),
        209 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=yellow,normal)s}", d)),
        210 => f.write_fmt(stylish::format_args!("{:(bold,bg=black,fg=yellow)s}", d)),
        211 => f.write_fmt(stylish::format_args!("{:(fg=yellow,bg=black,faint)s}", d)),
        212 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=yellow)s}", d)),
        213 => f.write_fmt(stylish::format_args!("{:(fg=yellow,normal,bg=red,)s}", d)),
        214 => f.write_fmt(stylish::format_args!("{:(bold,bg=red,fg=yellow)s}", d)),
        215 => f.write_fmt(stylish::format_args!("{:(faint,fg=yellow,bg=red)s}", d)),
        216 => f.write_fmt(stylish::format_args!("{:(fg=yellow,bg=green,)s}", d)),
        217 => f.write_fmt(stylish::format_args!("{:(normal,bg=green,fg=yellow,)s}", d)),
        218 => f.write_fmt(stylish::format_args!("{:(fg=yellow,bg=green,bold)s}", d)),
        219 => f.write_fmt(stylish::format_args!("{:(bg=green,faint,fg=yellow)s}", d)),
        220 => f.write_fmt(stylish::format_args!("{:(bg=yellow,fg=yellow)s}", d)),
        221 => f.write_fmt(stylish::format_args!("{:(bg=yellow,normal,fg=yellow)s}", d)),
        222 => f.write_fmt(stylish::format_args!("{:(bold,bg=yellow,fg=yellow,)s}", d)),
        223 => f.write_fmt(stylish::format_args!("{:(fg=yellow,bg=yellow,faint,)s}", d)),
        224 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=yellow)s}", d)),
        225 => f.write_fmt(stylish::format_args!("{:(normal,bg=blue,fg=yellow)s}", d)),
        226 => f.write_fmt(stylish::format_args!("{:(bg=blue,bold,fg=yellow)s}", d)),
        227 => f.write_fmt(stylish::format_args!("{:(faint,bg=blue,fg=yellow)s}", d)),
        228 => f.write_fmt(stylish::format_args!("{:(bg=magenta,fg=yellow)s}", d)),
        229 => f.write_fmt(stylish::format_args!("{:(fg=yellow,bg=magenta,normal)s}", d)),
        230 => f.write_fmt(stylish::format_args!("{:(bold,fg=yellow,bg=magenta)s}", d)),
        231 => f.write_fmt(stylish::format_args!("{:(faint,fg=yellow,bg=magenta)s}", d)),
        232 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=yellow)s}", d)),
        233 => f.write_fmt(stylish::format_args!("{:(bg=cyan,normal,fg=yellow)s}", d)),
        234 => f.write_fmt(stylish::format_args!("{:(bold,fg=yellow,bg=cyan)s}", d)),
        235 => f.write_fmt(stylish::format_args!("{:(fg=yellow,bg=cyan,faint)s}", d)),
        236 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=yellow)s}", d)),
        237 => f.write_fmt(stylish::format_args!("{:(bg=white,normal,fg=yellow,)s}", d)),
        238 => f.write_fmt(stylish::format_args!("{:(bg=white,bold,fg=yellow)s}", d)),
        239 => f.write_fmt(stylish::format_args!("{:(fg=yellow,faint,bg=white)s}", d)),
        240 => f.write_fmt(stylish::format_args!("{:(fg=blue)s}", d)),
        241 => f.write_fmt(stylish::format_args!("{:(fg=blue,normal)s}", d)),
        242 => f.write_fmt(stylish::format_args!("{:(bold,fg=blue)s}", d)),
        243 => f.write_fmt(stylish::format_args!("{:(fg=blue,faint)s}", d)),
        244 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=default)s}", d)),
        245 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=blue,normal)s}", d)),
        246 => f.write_fmt(stylish::format_args!("{:(bold,fg=blue,bg=default)s}", d)),
        247 => f.write_fmt(stylish::format_args!("{:(faint,bg=default,fg=blue)s}", d)),
        248 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=blue,)s}", d)),
        249 => f.write_fmt(stylish::format_args!("{:(normal,bg=black,fg=blue)s}", d)),
        250 => f.write_fmt(stylish::format_args!("{:(bold,bg=black,fg=blue)s}", d)),
        251 => f.write_fmt(stylish::format_args!("{:(faint,bg=black,fg=blue)s}", d)),
        252 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=red)s}", d)),
        253 => f.write_fmt(stylish::format_args!("{:(normal,bg=red,fg=blue)s}", d)),
        254 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=blue,bold)s}", d)),
        255 => f.write_fmt(stylish::format_args!("{:(faint,fg=blue,bg=red)s}", d)),
        256 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=green)s}", d)),
        257 => f.write_fmt(stylish::format_args!("{:(fg=blue,normal,bg=green)s}", d)),
        258 => f.write_fmt(stylish::format_args!("{:(fg=blue,bold,bg=green)s}", d)),
        259 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=blue,faint)s}", d)),
        260 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=yellow)s}", d)),
        261 => f.write_fmt(stylish::format_args!("{:(normal,bg=yellow,fg=blue)s}", d)),
        262 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=yellow,bold,)s}", d)),
        263 => f.write_fmt(stylish::format_args!("{:(fg=blue,faint,bg=yellow)s}", d)),
        264 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=blue)s}", d)),
        265 => f.write_fmt(stylish::format_args!("{:(normal,fg=blue,bg=blue)s}", d)),
        266 => f.write_fmt(stylish::format_args!("{:(bg=blue,bold,fg=blue)s}", d)),
        267 => f.write_fmt(stylish::format_args!("{:(faint,bg=blue,fg=blue)s}", d)),
        268 => f.write_fmt(stylish::format_args!("{:(bg=magenta,fg=blue)s}", d)),
        269 => f.write_fmt(stylish::format_args!("{:(fg=blue,normal,bg=magenta)s}", d)),
        270 => f.write_fmt(stylish::format_args!("{:(bold,bg=magenta,fg=blue)s}", d)),
        271 => f.write_fmt(stylish::format_args!("{:(fg=blue,faint,bg=magenta,)s}", d)),
        272 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=blue,)s}", d)),
        273 => f.write_fmt(stylish::format_args!("{:(bg=cyan,normal,fg=blue)s}", d)),
        274 => f.write_fmt(stylish::format_args!("{:(bold,bg=cyan,fg=blue)s}", d)),
        275 => f.write_fmt(stylish::format_args!("{:(faint,bg=cyan,fg=blue,)s}", d)),
        276 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=blue)s}", d)),
        277 => f.write_fmt(stylish::format_args!("{:(fg=blue,normal,bg=white)s}", d)),
        278 => f.write_fmt(stylish::format_args!("{:(bold,fg=blue,bg=white)s}", d)),
        279 => f.write_fmt(stylish::format_args!("{:(bg=white,faint,fg=blue)s}", d)),
        280 => f.write_fmt(stylish::format_args!("{:(fg=magenta)s}", d)),
        281 => f.write_fmt(stylish::format_args!("{:(fg=magenta,normal)s}", d)),
        282 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bold)s}", d)),
        283 => f.write_fmt(stylish::format_args!("{:(fg=magenta,faint)s}", d)),
        284 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=magenta)s}", d)),
        285 => f.write_fmt(stylish::format_args!("{:(fg=magenta,normal,bg=default)s}", d)),
        286 => f.write_fmt(stylish::format_args!("{:(bg=default,bold,fg=magenta)s}", d)),
        287 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=default,faint)s}", d)),
        288 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=magenta)s}", d)),
        289 => f.write_fmt(stylish::format_args!("{:(fg=magenta,normal,bg=black)s}", d)),
        290 => f.write_fmt(stylish::format_args!("{:(bg=black,bold,fg=magenta,)s}", d)),
        291 => f.write_fmt(stylish::format_args!("{:(faint,fg=magenta,bg=black)s}", d)),
        292 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=magenta)s}", d)),
        293 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=magenta,normal)s}", d)),
        294 => f.write_fmt(stylish::format_args!("{:(bg=red,bold,fg=magenta,)s}", d)),
        295 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=red,faint)s}", d)),
        296 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=green)s}", d)),
        297 => f.write_fmt(stylish::format_args!("{:(normal,bg=green,fg=magenta)s}", d)),
        298 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=green,bold)s}", d)),
        299 => f.write_fmt(stylish::format_args!("{:(bg=green,faint,fg=magenta)s}", d)),
        300 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=yellow)s}", d)),
        301 => f.write_fmt(stylish::format_args!("{:(bg=yellow,fg=magenta,normal)s}", d)),
        302 => f.write_fmt(stylish::format_args!("{:(bg=yellow,bold,fg=magenta)s}", d)),
        303 => f.write_fmt(stylish::format_args!("{:(bg=yellow,fg=magenta,faint,)s}", d)),
        304 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=blue)s}", d)),
        305 => f.write_fmt(stylish::format_args!("{:(bg=blue,normal,fg=magenta)s}", d)),
        306 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=magenta,bold,)s}", d)),
        307 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=blue,faint)s}", d)),
        308 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=magenta)s}", d)),
        309 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=magenta,normal)s}", d)),
        310 => f.write_fmt(stylish::format_args!("{:(bold,bg=magenta,fg=magenta)s}", d)),
        311 => f.write_fmt(stylish::format_args!("{:(faint,fg=magenta,bg=magenta)s}", d)),
        312 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=cyan)s}", d)),
        313 => f.write_fmt(stylish::format_args!("{:(normal,fg=magenta,bg=cyan)s}", d)),
        314 => f.write_fmt(stylish::format_args!("{:(bg=cyan,bold,fg=magenta)s}", d)),
        315 => f.write_fmt(stylish::format_args!("{:(fg=magenta,faint,bg=cyan,)s}", d)),
        316 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=magenta)s}", d)),
        317 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=magenta,normal)s}", d)),
        318 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=magenta,bold)s}", d)),
        319 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=white,faint,)s}", d)),
        320 => f.write_fmt(stylish::format_args!("{:(fg=cyan)s}", d)),
        321 => f.write_fmt(stylish::format_args!("{:(fg=cyan,normal)s}", d)),
        322 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bold)s}", d)),
        323 => f.write_fmt(stylish::format_args!("{:(fg=cyan,faint)s}", d)),
        324 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=default)s}", d)),
        325 => f.write_fmt(stylish::format_args!("{:(normal,fg=cyan,bg=default,)s}", d)),
        326 => f.write_fmt(stylish::format_args!("{:(bold,fg=cyan,bg=default,)s}", d)),
        327 => f.write_fmt(stylish::format_args!("{:(faint,fg=cyan,bg=default)s}", d)),
        328 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=black)s}", d)),
        329 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=black,normal,)s}", d)),
        330 => f.write_fmt(stylish::format_args!("{:(bold,fg=cyan,bg=black)s}", d)),
        331 => f.write_fmt(stylish::format_args!("{:(bg=black,faint,fg=cyan,)s}", d)),
        332 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=cyan)s}", d)),
        333 => f.write_fmt(stylish::format_args!("{:(normal,bg=red,fg=cyan)s}", d)),
        334 => f.write_fmt(stylish::format_args!("{:(bold,bg=red,fg=cyan)s}", d)),
        335 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=cyan,faint)s}", d)),
        336 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=cyan)s}", d)),
        337 => f.write_fmt(stylish::format_args!("{:(bg=green,normal,fg=cyan)s}", d)),
        338 => f.write_fmt(stylish::format_args!("{:(bg=green,bold,fg=cyan,)s}", d)),
        339 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=green,faint)s}", d)),
        340 => f.write_fmt(stylish::format_args!("{:(bg=yellow,fg=cyan)s}", d)),
        341 => f.write_fmt(stylish::format_args!("{:(bg=yellow,normal,fg=cyan)s}", d)),
        342 => f.write_fmt(stylish::format_args!("{:(bold,fg=cyan,bg=yellow)s}", d)),
        343 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=yellow,faint)s}", d)),
        344 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=cyan,)s}", d)),
        345 => f.write_fmt(stylish::format_args!("{:(normal,fg=cyan,bg=blue,)s}", d)),
        346 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=cyan,bold,)s}", d)),
        347 => f.write_fmt(stylish::format_args!("{:(fg=cyan,faint,bg=blue,)s}", d)),
        348 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=magenta)s}", d)),
        349 => f.write_fmt(stylish::format_args!("{:(bg=magenta,fg=cyan,normal)s}", d)),
        350 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bold,bg=magenta)s}", d)),
        351 => f.write_fmt(stylish::format_args!("{:(faint,bg=magenta,fg=cyan)s}", d)),
        352 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=cyan)s}", d)),
        353 => f.write_fmt(stylish::format_args!("{:(fg=cyan,normal,bg=cyan)s}", d)),
        354 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=cyan,bold)s}", d)),
        355 => f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=cyan,faint)s}", d)),
        356 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=white)s}", d)),
        357 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=cyan,normal)s}", d)),
        358 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bold,bg=white)s}", d)),
        359 => f.write_fmt(stylish::format_args!("{:(bg=white,faint,fg=cyan)s}", d)),
        360 => f.write_fmt(stylish::format_args!("{:(fg=white)s}", d)),
        361 => f.write_fmt(stylish::format_args!("{:(normal,fg=white)s}", d)),
        362 => f.write_fmt(stylish::format_args!("{:(bold,fg=white)s}", d)),
        363 => f.write_fmt(stylish::format_args!("{:(faint,fg=white)s}", d)),
        364 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=white)s}", d)),
        365 => f.write_fmt(stylish::format_args!("{:(bg=default,normal,fg=white)s}", d)),
        366 => f.write_fmt(stylish::format_args!("{:(bg=default,fg=white,bold)s}", d)),
        367 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=default,faint)s}", d)),
        368 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=white)s}", d)),
        369 => f.write_fmt(stylish::format_args!("{:(normal,bg=black,fg=white)s}", d)),
        370 => f.write_fmt(stylish::format_args!("{:(bg=black,fg=white,bold)s}", d)),
        371 => f.write_fmt(stylish::format_args!("{:(fg=white,faint,bg=black,)s}", d)),
        372 => f.write_fmt(stylish::format_args!("{:(bg=red,fg=white)s}", d)),
        373 => f.write_fmt(stylish::format_args!("{:(fg=white,normal,bg=red)s}", d)),
        374 => f.write_fmt(stylish::format_args!("{:(bg=red,bold,fg=white)s}", d)),
        375 => f.write_fmt(stylish::format_args!("{:(fg=white,faint,bg=red)s}", d)),
        376 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=green)s}", d)),
        377 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=white,normal)s}", d)),
        378 => f.write_fmt(stylish::format_args!("{:(bg=green,fg=white,bold)s}", d)),
        379 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=green,faint)s}", d)),
        380 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=yellow)s}", d)),
        381 => f.write_fmt(stylish::format_args!("{:(bg=yellow,normal,fg=white)s}", d)),
        382 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=yellow,bold,)s}", d)),
        383 => f.write_fmt(stylish::format_args!("{:(faint,bg=yellow,fg=white,)s}", d)),
        384 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=white,)s}", d)),
        385 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=white,normal,)s}", d)),
        386 => f.write_fmt(stylish::format_args!("{:(bold,bg=blue,fg=white)s}", d)),
        387 => f.write_fmt(stylish::format_args!("{:(faint,bg=blue,fg=white)s}", d)),
        388 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=magenta)s}", d)),
        389 => f.write_fmt(stylish::format_args!("{:(fg=white,normal,bg=magenta)s}", d)),
        390 => f.write_fmt(stylish::format_args!("{:(fg=white,bold,bg=magenta)s}", d)),
        391 => f.write_fmt(stylish::format_args!("{:(faint,bg=magenta,fg=white)s}", d)),
        392 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=cyan)s}", d)),
        393 => f.write_fmt(stylish::format_args!("{:(bg=cyan,normal,fg=white)s}", d)),
        394 => f.write_fmt(stylish::format_args!("{:(bold,bg=cyan,fg=white,)s}", d)),
        395 => f.write_fmt(stylish::format_args!("{:(bg=cyan,faint,fg=white)s}", d)),
        396 => f.write_fmt(stylish::format_args!("{:(fg=white,bg=white)s}", d)),
        397 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=white,normal)s}", d)),
        398 => f.write_fmt(stylish::format_args!("{:(fg=white,bold,bg=white)s}", d)),
        399 => f.write_fmt(stylish::format_args!("{:(faint,bg=white,fg=white)s}", d)),
        _ => unreachable!(),
    }
}

pub fn attr_std(i: usize, f: &mut Formatter<'_>, d: &Val) -> Result {
    match i {
        0 => f.write_fmt(stylish::format_args!("{:+(bg=magenta,fg=blue)}", *d)),
        1 => f.write_fmt(stylish::format_args!("{:#(bg=red,)}", *d)),
        2 => f.write_fmt(stylish::format_args!("{:<9(bg=red,fg=red)}", *d)),
        3 => f.write_fmt(stylish::format_args!("{:(bold,fg=default,bg=black)x}", *d)),
        4 => f.write_fmt(stylish::format_args!("{:#(normal,bg=white,fg=white)?}", *d)),
        5 => f.write_fmt(stylish::format_args!("{:08.1(bg=default,bold,)}", *d)),
        6 => f.write_fmt(stylish::format_args!("{:+(fg=cyan,bg=yellow,normal)}", *d)),
        7 => f.write_fmt(stylish::format_args!("{:<9(bg=black,fg=green)}", *d)),
        8 => f.write_fmt(stylish::format_args!("{:(fg=black,normal,)?}", *d)),
        9 => f.write_fmt(stylish::format_args!("{:(bold,bg=yellow,fg=magenta)?}", *d)),
        10 => f.write_fmt(stylish::format_args!("{: >8.2(bg=blue,bold,fg=black,)}", *d)),
        11 => f.write_fmt(stylish::format_args!("{:+(bg=yellow,fg=yellow,faint)}", *d)),
        12 => f.write_fmt(stylish::format_args!("{:^6(bg=default,fg=default)}", *d)),
        13 => f.write_fmt(stylish::format_args!("{:(fg=black)}", *d)),
        14 => f.write_fmt(stylish::format_args!("{:#(fg=cyan,normal)}", *d)),
        15 => f.write_fmt(stylish::format_args!("{:+(bg=default,bold,fg=blue)}", *d)),
        16 => f.write_fmt(stylish::format_args!("{:(fg=blue,faint,bg=yellow,)?}", *d)),
        17 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=green,faint)?}", *d)),
        18 => f.write_fmt(stylish::format_args!("{:#(bold,bg=magenta,fg=blue,)?}", *d)),
        19 => f.write_fmt(stylish::format_args!("{:>7(bg=white,fg=blue,normal)}", *d)),
        20 => f.write_fmt(stylish::format_args!("{:>7(bold,fg=white,bg=black)}", *d)),
        21 => f.write_fmt(stylish::format_args!("{:(fg=default,bg=cyan,faint)}", *d)),
        22 => f.write_fmt(stylish::format_args!("{:(bg=blue,fg=blue)?}", *d)),
        23 => f.write_fmt(stylish::format_args!("{:>7(fg=blue)}", *d)),
        24 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=magenta,faint)?}", *d)),
        25 => f.write_fmt(stylish::format_args!("{:>7(normal,fg=magenta,bg=default,)}", *d)),
        26 => f.write_fmt(stylish::format_args!("{:08.1(bg=default,fg=yellow,)}", *d)),
        27 => f.write_fmt(stylish::format_args!("{: >8.2(fg=default,bg=default)}", *d)),
        28 => f.write_fmt(stylish::format_args!("{:+(bg=green,fg=green,)}", *d)),
        29 => f.write_fmt(stylish::format_args!("{:#(bg=blue,fg=default,)}", *d)),
        30 => f.write_fmt(stylish::format_args!("{:<9(bg=magenta,bold,fg=magenta)}", *d)),
        31 => f.write_fmt(stylish::format_args!("{:(fg=yellow,bg=green,bold)}", *d)),
        32 => f.write_fmt(stylish::format_args!("{: >8.2(faint,bg=white,fg=magenta)}", *d)),
        33 => f.write_fmt(stylish::format_args!("{:<9(fg=yellow,bg=cyan,)}", *d)),
        34 => f.write_fmt(stylish::format_args!("{:#(fg=yellow,bold,bg=black)?}", *d)),
        35 => f.write_fmt(stylish::format_args!("{:08.1(bold,fg=default,bg=yellow)}", *d)),
        36 => f.write_fmt(stylish::format_args!("{: >8.2(fg=blue,bold,bg=black)}", *d)),
        37 => f.write_fmt(stylish::format_args!("{:^6(fg=black)}", *d)),
        38 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=yellow,bold)}", *d)),
        39 => f.write_fmt(stylish::format_args!("{: >8.2(bold,fg=blue,bg=blue,)}", *d)),
        40 => f.write_fmt(stylish::format_args!("{:(faint,bg=magenta,fg=red)}", *d)),
        41 => f.write_fmt(stylish::format_args!("{:+(normal,bg=black,fg=yellow)}", *d)),
        42 => f.write_fmt(stylish::format_args!("{: >8.2(fg=magenta,bg=blue)}", *d)),
        43 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=blue)?}", *d)),
        44 => f.write_fmt(stylish::format_args!("{:(bold,bg=red,fg=black)}", *d)),
        45 => f.write_fmt(stylish::format_args!("{:#(fg=cyan,normal,bg=white)?}", *d)),
        46 => f.write_fmt(stylish::format_args!("{:(bold,bg=white,fg=magenta)x}", *d)),
        47 => f.write_fmt(stylish::format_args!("{:^6(normal,fg=magenta,bg=white)}", *d)),
        48 => f.write_fmt(stylish::format_args!("{:(fg=blue,normal,bg=magenta)x}", *d)),
        49 => f.write_fmt(stylish::format_args!("{: >8.2(bold,bg=yellow,fg=blue)}", *d)),
        50 => f.write_fmt(stylish::format_args!("{:#(normal,fg=blue)?}", *d)),
        51 => f.write_fmt(stylish::format_args!("{:^6(bg=blue,fg=magenta,faint)}", *d)),
        52 => f.write_fmt(stylish::format_args!("{:(faint,bg=red,fg=magenta)}", *d)),
        53 => f.write_fmt(stylish::format_args!("{:<9(fg=white,bold,bg=cyan)}", *d)),
        54 => f.write_fmt(stylish::format_args!("{:>7(normal,fg=red,bg=red)}", *d)),
        55 => f.write_fmt(stylish::format_args!("{:(bold,bg=cyan,fg=cyan)?}", *d)),
        56 => f.write_fmt(stylish::format_args!("{: >8.2(bold,bg=red,fg=red)}", *d)),
        57 => f.write_fmt(stylish::format_args!("{:(fg=green,bg=magenta,bold)}", *d)),
        58 => f.write_fmt(stylish::format_args!("{:(fg=magenta,bg=magenta)?}", *d)),
        59 => f.write_fmt(stylish::format_args!("{:+(bg=red,fg=green,faint)}", *d)),
        60 => f.write_fmt(stylish::format_args!("{: >8.2(bold,bg=cyan,fg=blue)}", *d)),
        61 => f.write_fmt(stylish::format_args!("{:08.1(fg=white,bg=yellow,faint)}", *d)),
        62 => f.write_fmt(stylish::format_args!("{:(bg=cyan,normal)}", *d)),
        63 => f.write_fmt(stylish::format_args!("{:08.1(fg=default,bg=green,normal,)}", *d)),
        64 => f.write_fmt(stylish::format_args!("{:#(bold,fg=green)?}", *d)),
        65 => f.write_fmt(stylish::format_args!("{:+(bold,fg=green,bg=white,)}", *d)),
        66 => f.write_fmt(stylish::format_args!("{:08.1(bold,bg=magenta,fg=yellow)}", *d)),
        67 => f.write_fmt(stylish::format_args!("{:^6(bg=yellow,bold,fg=white)}", *d)),
        68 => f.write_fmt(stylish::format_args!("{:(fg=white,normal,bg=green)}", *d)),
        69 => f.write_fmt(stylish::format_args!("{:(faint,bg=default)x}", *d)),
        70 => f.write_fmt(stylish::format_args!("{:<9(faint,bg=yellow,fg=blue)}", *d)),
        71 => f.write_fmt(stylish::format_args!("{:(normal,fg=blue,bg=yellow)}", *d)),
        72 => f.write_fmt(stylish::format_args!("{:(normal,fg=white,bg=green)}", *d)),
        73 => f.write_fmt(stylish::format_args!("{:(bold,fg=yellow,bg=cyan)x}", *d)),
        74 => f.write_fmt(stylish::format_args!("{:^6(fg=red,normal)}", *d)),
        75 => f.write_fmt(stylish::format_args!("{:(bg=green)}", *d)),
        76 => f.write_fmt(stylish::format_args!("{:^6(fg=blue,bold,bg=white)}", *d)),
        77 => f.write_fmt(stylish::format_args!("{:(fg=default,bg=blue)}", *d)),
        78 => f.write_fmt(stylish::format_args!("{:#(fg=cyan,bg=red,normal)?}", *d)),
        79 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=blue)?}", *d)),
        80 => f.write_fmt(stylish::format_args!("{:(faint,fg=yellow)?}", *d)),
        81 => f.write_fmt(stylish::format_args!("{:(fg=cyan,bg=yellow,faint)?}", *d)),
        82 => f.write_fmt(stylish::format_args!("{:(fg=blue,bg=black,bold,)}", *d)),
        83 => f.write_fmt(stylish::format_args!("{: >8.2(faint,fg=red,bg=black)}", *d)),
        84 => f.write_fmt(stylish::format_args!("{:(normal,bg=green,fg=black)?}", *d)),
        85 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=cyan)?}", *d)),
        86 => f.write_fmt(stylish::format_args!("{:+(bg=black,fg=green,bold)}", *d)),
        87 => f.write_fmt(stylish::format_args!("{:#(bg=magenta,fg=yellow)}", *d)),
        88 => f.write_fmt(stylish::format_args!("{:(fg=green,bold,)}", *d)),
        89 => f.write_fmt(stylish::format_args!("{:^6(fg=default)}", *d)),
        90 => f.write_fmt(stylish::format_args!("{:(bold,fg=blue,bg=cyan)x}", *d)),
        91 => f.write_fmt(stylish::format_args!("{:(faint,fg=blue,bg=white)}", *d)),
        92 => f.write_fmt(stylish::format_args!("{:>7(bg=magenta,fg=blue)}", *d)),
        93 => f.write_fmt(stylish::format_args!("{:(bg=magenta)}", *d)),
        94 => f.write_fmt(stylish::format_args!("{:08.1(fg=black,normal,bg=cyan,)}", *d)),
        95 => f.write_fmt(stylish::format_args!("{:+(normal,fg=magenta,bg=black)}", *d)),
        96 => f.write_fmt(stylish::format_args!("{:#(faint,bg=green,fg=black)?}", *d)),
        97 => f.write_fmt(stylish::format_args!("{:#(bg=green,fg=red)?}", *d)),
        98 => f.write_fmt(stylish::format_args!("{:(bg=yellow)x}", *d)),
        99 => f.write_fmt(stylish::format_args!("{:>7(fg=white,bg=yellow,normal)}", *d)),
        100 => f.write_fmt(stylish::format_args!("{:>7(bg=yellow,faint,fg=black)}", *d)),
        101 => f.write_fmt(stylish::format_args!("{:(bg=white,fg=cyan,normal)}", *d)),
        102 => f.write_fmt(stylish::format_args!("{:#(normal,bg=black,fg=red)?}", *d)),
        103 => f.write_fmt(stylish::format_args!("{:(faint,fg=magenta,bg=magenta)}", *d)),
        104 => f.write_fmt(stylish::format_args!("{:(bg=magenta,)}", *d)),
        105 => f.write_fmt(stylish::format_args!("{:^6(bg=green,faint,fg=black)}", *d)),
        106 => f.write_fmt(stylish::format_args!("{:^6(bg=cyan,bold,fg=blue)}", *d)),
        107 => f.write_fmt(stylish::format_args!("{:08.1(bg=black,normal,fg=default,)}", *d)),
        108 => f.write_fmt(stylish::format_args!("{:^6(faint,fg=cyan,bg=magenta)}", *d)),
        109 => f.write_fmt(stylish::format_args!("{:(bold,bg=red,fg=green)?}", *d)),
        110 => f.write_fmt(stylish::format_args!("{:^6(fg=default,bg=blue,normal)}", *d)),
        111 => f.write_fmt(stylish::format_args!("{:#(bg=magenta,fg=red)}", *d)),
        112 => f.write_fmt(stylish::format_args!("{:08.1(fg=yellow,bg=blue,bold)}", *d)),
        113 => f.write_fmt(stylish::format_args!("{:>7(faint,bg=default,)}", *d)),
        114 => f.write_fmt(stylish::format_args!("{:#(bg=default,faint)?}", *d)),
        115 => f.write_fmt(stylish::format_args!("{:#(bold,fg=red,bg=default)?}", *d)),
        116 => f.write_fmt(stylish::format_args!("{:+(bg=cyan,fg=blue,bold)}", *d)),
        117 => f.write_fmt(stylish::format_args!("{:>7(normal,bg=default,fg=magenta)}", *d)),
        118 => f.write_fmt(stylish::format_args!("{:(fg=yellow,normal)}", *d)),
        119 => f.write_fmt(stylish::format_args!("{:<9(fg=yellow,bold)}", *d)),
        _ => unreachable!(),
    }
}

pub fn attr_std_text(i: usize, d: &Val, o: &mut dyn core::fmt::Write) -> core::fmt::Result {
    match i {
        0 => core::write!(o, "{:+}", *d),
        1 => core::write!(o, "{:#}", *d),
        2 => core::write!(o, "{:<9}", *d),
        3 => core::write!(o, "{:x}", *d),
        4 => core::write!(o, "{:#?}", *d),
        5 => core::write!(o, "{:08.1}", *d),
        6 => core::write!(o, "{:+}", *d),
        7 => core::write!(o, "{:<9}", *d),
        8 => core::write!(o, "{:?}", *d),
        9 => core::write!(o, "{:?}", *d),
        10 => core::write!(o, "{: >8.2}", *d),
        11 => core::write!(o, "{:+}", *d),
        12 => core::write!(o, "{:^6}", *d),
        13 => core::write!(o, "{:}", *d),
        14 => core::write!(o, "{:#}", *d),
        15 => core::write!(o, "{:+}", *d),
        16 => core::write!(o, "{:?}", *d),
        17 => core::write!(o, "{:?}", *d),
        18 => core::write!(o, "{:#?}", *d),
        19 => core::write!(o, "{:>7}", *d),
        20 => core::write!(o, "{:>7}", *d),
        21 => core::write!(o, "{:}", *d),
        22 => core::write!(o, "{:?}", *d),
        23 => core::write!(o, "{:>7}", *d),
        24 => core::write!(o, "{:?}", *d),
        25 => core::write!(o, "{:>7}", *d),
        26 => core::write!(o, "{:08.1}", *d),
        27 => core::write!(o, "{: >8.2}", *d),
        28 => core::write!(o, "{:+}", *d),
        29 => core::write!(o, "{:#}", *d),
        30 => core::write!(o, "{:<9}", *d),
        31 => core::write!(o, "{:}", *d),
        32 => core::write!(o, "{: >8.2}", *d),
        33 => core::write!(o, "{:<9}", *d),
        34 => core::write!(o, "{:#?}", *d),
        35 => core::write!(o, "{:08.1}", *d),
        36 => core::write!(o, "{: >8.2}", *d),
        37 => core::write!(o, "{:^6}", *d),
        38 => core::write!(o, "{:}", *d),
        39 => core::write!(o, "{: >8.2}", *d),
        40 => core::write!(o, "{:}", *d),
        41 => core::write!(o, "{:+}", *d),
        42 => core::write!(o, "{: >8.2}", *d),
        43 => core::write!(o, "{:?}", *d),
        44 => core::write!(o, "{:}", *d),
        45 => core::write!(o, "{:#?}", *d),
        46 => core::write!(o, "{:x}", *d),
        47 => core::write!(o, "{:^6}", *d),
        48 => core::write!(o, "{:x}", *d),
        49 => core::write!(o, "{: >8.2}", *d),
        50 => core::write!(o, "{:#?}", *d),
        51 => core::write!(o, "{:^6}", *d),
        52 => core::write!(o, "{:}", *d),
        53 => core::write!(o, "{:<9}", *d),
        54 => core::write!(o, "{:>7}", *d),
        55 => core::write!(o, "{:?}", *d),
        56 => core::write!(o, "{: >8.2}", *d),
        57 => core::write!(o, "{:}", *d),
        58 => core::write!(o, "{:?}", *d),
        59 => core::write!(o, "{:+}", *d),
        60 => core::write!(o, "{: >8.2}", *d),
        61 => core::write!(o, "{:08.1}", *d),
        62 => core::write!(o, "{:}", *d),
        63 => core::write!(o, "{:08.1}", *d),
        64 => core::write!(o, "{:#?}", *d),
        65 => core::write!(o, "{:+}", *d),
        66 => core::write!(o, "{:08.1}", *d),
        67 => core::write!(o, "{:^6}", *d),
        68 => core::write!(o, "{:}", *d),
        69 => core::write!(o, "{:x}", *d),
        70 => core::write!(o, "{:<9}", *d),
        71 => core::write!(o, "{:}", *d),
        72 => core::write!(o, "{:}", *d),
        73 => core::write!(o, "{:x}", *d),
        74 => core::write!(o, "{:^6}", *d),
        75 => core::write!(o, "{:}", *d),
        76 => core::write!(o, "{:^6}", *d),
        77 => core::write!(o, "{:}", *d),
        78 => core::write!(o, "{:#?}", *d),
        79 => core::write!(o, "{:?}", *d),
        80 => core::write!(o, "{:?}", *d),
        81 => core::write!(o, "{:?}", *d),
        82 => core::write!(o, "{:}", *d),
        83 => core::write!(o, "{: >8.2}", *d),
        84 => core::write!(o, "{:?}", *d),
        85 => core::write!(o, "{:?}", *d),
        86 => core::write!(o, "{:+}", *d),
        87 => core::write!(o, "{:#}", *d),
        88 => core::write!(o, "{:}", *d),
        89 => core::write!(o, "{:^6}", *d),
        90 => core::write!(o, "{:x}", *d),
        91 => core::write!(o, "{:}", *d),
        92 => core::write!(o, "{:>7}", *d),
        93 => core::write!(o, "{:}", *d),
        94 => core::write!(o, "{:08.1}", *d),
        95 => core::write!(o, "{:+}", *d),
        96 => core::write!(o, "{:#?}", *d),
        97 => core::write!(o, "{:#?}", *d),
        98 => core::write!(o, "{:x}", *d),
        99 => core::write!(o, "{:>7}", *d),
        100 => core::write!(o, "{:>7}", *d),
        101 => core::write!(o, "{:}", *d),
        102 => core::write!(o, "{:#?}", *d),
        103 => core::write!(o, "{:}", *d),
        104 => core::write!(o, "{:}", *d),
        105 => core::write!(o, "{:^6}", *d),
        106 => core::write!(o, "{:^6}", *d),
        107 => core::write!(o, "{:08.1}", *d),
        108 => core::write!(o, "{:^6}", *d),
        109 => core::write!(o, "{:?}", *d),
        110 => core::write!(o, "{:^6}", *d),
        111 => core::write!(o, "{:#}", *d),
        112 => core::write!(o, "{:08.1}", *d),
        113 => core::write!(o, "{:>7}", *d),
        114 => core::write!(o, "{:#?}", *d),
        115 => core::write!(o, "{:#?}", *d),
        116 => core::write!(o, "{:+}", *d),
        117 => core::write!(o, "{:>7}", *d),
        118 => core::write!(o, "{:}", *d),
        119 => core::write!(o, "{:<9}", *d),
        _ => unreachable!(),
    }
}

pub const N_STD: usize = 120;
pub static STD_ATTRS: &[Attr] = &[
    Attr { fg: 6, bg: 7, it: 0 },
    Attr { fg: 0, bg: 3, it: 0 },
    Attr { fg: 3, bg: 3, it: 0 },
    Attr { fg: 1, bg: 2, it: 2 },
    Attr { fg: 9, bg: 9, it: 1 },
    Attr { fg: 0, bg: 1, it: 2 },
    Attr { fg: 8, bg: 5, it: 1 },
    Attr { fg: 4, bg: 2, it: 0 },
    Attr { fg: 2, bg: 0, it: 1 },
    Attr { fg: 7, bg: 5, it: 2 },
    Attr { fg: 2, bg: 6, it: 2 },
    Attr { fg: 5, bg: 5, it: 3 },
    Attr { fg: 1, bg: 1, it: 0 },
    Attr { fg: 2, bg: 0, it: 0 },
    Attr { fg: 8, bg: 0, it: 1 },
    Attr { fg: 6, bg: 1, it: 2 },
    Attr { fg: 6, bg: 5, it: 3 },
    Attr { fg: 8, bg: 4, it: 3 },
    Attr { fg: 6, bg: 7, it: 2 },
    Attr { fg: 6, bg: 9, it: 1 },
    Attr { fg: 9, bg: 2, it: 2 },
    Attr { fg: 1, bg: 8, it: 3 },
    Attr { fg: 6, bg: 6, it: 0 },
    Attr { fg: 6, bg: 0, it: 0 },
    Attr { fg: 8, bg: 7, it: 3 },
    Attr { fg: 7, bg: 1, it: 1 },
    Attr { fg: 5, bg: 1, it: 0 },
    Attr { fg: 1, bg: 1, it: 0 },
    Attr { fg: 4, bg: 4, it: 0 },
    Attr { fg: 1, bg: 6, it: 0 },
    Attr { fg: 7, bg: 7, it: 2 },
    Attr { fg: 5, bg: 4, it: 2 },
    Attr { fg: 7, bg: 9, it: 3 },
    Attr { fg: 5, bg: 8, it: 0 },
    Attr { fg: 5, bg: 2, it: 2 },
    Attr { fg: 1, bg: 5, it: 2 },
    Attr { fg: 6, bg: 2, it: 2 },
    Attr { fg: 2, bg: 0, it: 0 },
    Attr { fg: 7, bg: 5, it: 2 },
    Attr { fg: 6, bg: 6, it: 2 },
    Attr { fg: 3, bg: 7, it: 3 },
    Attr { fg: 5, bg: 2, it: 1 },
    Attr { fg: 7, bg: 6, it: 0 },
    Attr { fg: 6, bg: 9, it: 0 },
    Attr { fg: 2, bg: 3, it: 2 },
    Attr { fg: 8, bg: 9, it: 1 },
    Attr { fg: 7, bg: 9, it: 2 },
    Attr { fg: 7, bg: 9, it: 1 },
    Attr { fg: 6, bg: 7, it: 1 },
    Attr { fg: 6, bg: 5, it: 2 },
    Attr { fg: 6, bg: 0, it: 1 },
    Attr { fg: 7, bg: 6, it: 3 },
    Attr { fg: 7, bg: 3, it: 3 },
    Attr { fg: 9, bg: 8, it: 2 },
    Attr { fg: 3, bg: 3, it: 1 },
    Attr { fg: 8, bg: 8, it: 2 },
    Attr { fg: 3, bg: 3, it: 2 },
    Attr { fg: 4, bg: 7, it: 2 },
    Attr { fg: 7, bg: 7, it: 0 },
    Attr { fg: 4, bg: 3, it: 3 },
    Attr { fg: 6, bg: 8, it: 2 },
    Attr { fg: 9, bg: 5, it: 3 },
    Attr { fg: 0, bg: 8, it: 1 },
    Attr { fg: 1, bg: 4, it: 1 },
    Attr { fg: 4, bg: 0, it: 2 },
    Attr { fg: 4, bg: 9, it: 2 },
    Attr { fg: 5, bg: 7, it: 2 },
    Attr { fg: 9, bg: 5, it: 2 },
    Attr { fg: 9, bg: 4, it: 1 },
    Attr { fg: 0, bg: 1, it: 3 },
    Attr { fg: 6, bg: 5, it: 3 },
    Attr { fg: 6, bg: 5, it: 1 },
    Attr { fg: 9, bg: 4, it: 1 },
    Attr { fg: 5, bg: 8, it: 2 },
    Attr { fg: 3, bg: 0, it: 1 },
    Attr { fg: 0, bg: 4, it: 0 },
    Attr { fg: 6, bg: 9, it: 2 },
    Attr { fg: 1, bg: 6, it: 0 },
    Attr { fg: 8, bg: 3, it: 1 },
    Attr { fg: 6, bg: 9, it: 0 },
    Attr { fg: 5, bg: 0, it: 3 },
    Attr { fg: 8, bg: 5, it: 3 },
    Attr { fg: 6, bg: 2, it: 2 },
    Attr { fg: 3, bg: 2, it: 3 },
    Attr { fg: 2, bg: 4, it: 1 },
    Attr { fg: 8, bg: 9, it: 0 },
    Attr { fg: 4, bg: 2, it: 2 },
    Attr { fg: 5, bg: 7, it: 0 },
    Attr { fg: 4, bg: 0, it: 2 },
    Attr { fg: 1, bg: 0, it: 0 },
    Attr { fg: 6, bg: 8, it: 2 },
    Attr { fg: 6, bg: 9, it: 3 },
    Attr { fg: 6, bg: 7, it: 0 },
    Attr { fg: 0, bg: 7, it: 0 },
    Attr { fg: 2, bg: 8, it: 1 },
    Attr { fg: 7, bg: 2, it: 1 },
    Attr { fg: 2, bg: 4, it: 3 },
    Attr { fg: 3, bg: 4, it: 0 },
    Attr { fg: 0, bg: 5, it: 0 },
    Attr { fg: 9, bg: 5, it: 1 },
    Attr { fg: 2, bg: 5, it: 3 },
    Attr { fg: 8, bg: 9, it: 1 },
    Attr { fg: 3, bg: 2, it: 1 },
    Attr { fg: 7, bg: 7, it: 3 },
    Attr { fg: 0, bg: 7, it: 0 },
    Attr { fg: 2, bg: 4, it: 3 },
    Attr { fg: 6, bg: 8, it: 2 },
    Attr { fg: 1, bg: 2, it: 1 },
    Attr { fg: 8, bg: 7, it: 3 },
    Attr { fg: 4, bg: 3, it: 2 },
    Attr { fg: 1, bg: 6, it: 1 },
    Attr { fg: 3, bg: 7, it: 0 },
    Attr { fg: 5, bg: 6, it: 2 },
    Attr { fg: 0, bg: 1, it: 3 },
    Attr { fg: 0, bg: 1, it: 3 },
    Attr { fg: 3, bg: 1, it: 2 },
    Attr { fg: 6, bg: 8, it: 2 },
    Attr { fg: 7, bg: 1, it: 1 },
    Attr { fg: 5, bg: 0, it: 1 },
    Attr { fg: 5, bg: 0, it: 2 },
];

#[derive(Debug)]
pub enum Piece {
    L(&'static str),
    C(usize, Attr),
}
use Piece::*;

pub fn template(i: usize, f: &mut Formatter<'_>, ch: &[&dyn Display]) -> Result {
    match i {
        0 => { f.write_fmt(stylish::format_args!("é{0:#()s}{0:(fg=blue,faint,bg=green)s}{0:+08.2(bold,)s}{{", ch[0])) }
        1 => { f.write_fmt(stylish::format_args!("\r\n{:(fg=green)s}", ch[0])) }
        2 => { f.write_fmt(stylish::format_args!("#;{0:>9(bold)s}", ch[0])) }
        3 => { f.write_fmt(stylish::format_args!("1:{:(fg=yellow)s}%%", ch[0])) }
        4 => { f.write_fmt(stylish::format_args!(": {a:>9(bg=red)s}]{a:>9s}<!-- -->{b:#(bold,fg=green,)s}<!-- -->", a = ch[0], b = ch[1])) }
        5 => { f.write_fmt(stylish::format_args!("é{:#(bold)s}{:(fg=blue)s}{:(fg=green)s}|{:+08.2(bold)s}", ch[0], ch[1], ch[2], ch[3])) }
        6 => { f.write_fmt(stylish::format_args!("{:(fg=yellow,faint,)s}\\{:(faint)s}\n\n{:(faint,bg=black)s}{:+08.2(fg=yellow,bg=blue)s}", ch[0], ch[1], ch[2], ch[3])) }
        7 => { f.write_fmt(stylish::format_args!("{{{:+08.2(normal,)s}\r{:#(fg=default,)s}<!-- -->", ch[0], ch[1])) }
        8 => { let a = ch[0]; f.write_fmt(stylish::format_args!("]{a:(fg=blue)s}|{c:(faint)s} - {b:#(bg=yellow)s}: ", b = ch[1], c = ch[2])) }
        9 => { let b = ch[1]; f.write_fmt(stylish::format_args!("<!-- -->{b:(fg=black,normal,bg=yellow)s}&amp;{a:s}{a:#()s}%%{b:(fg=green)s}", a = ch[0])) }
        10 => { f.write_fmt(stylish::format_args!("\"{:>9(bg=magenta,fg=red,)s}{0:+08.2(bg=black)s}<!-- -->{0:(fg=blue)s}a{{b}}c{0:+08.2(fg=white)s}　", ch[0])) }
        11 => { f.write_fmt(stylish::format_args!(": {:#(normal)s}\\", ch[0])) }
        12 => { f.write_fmt(stylish::format_args!("''{:(fg=magenta)s}&{:()s}{:#()s}x{:s}", ch[0], ch[1], ch[2], ch[3])) }
        13 => { f.write_fmt(stylish::format_args!("{{}}{1:#(fg=cyan,normal)s}<!-- -->{0:#(bold,)s}{1:>9s}{1:>9s}}}", ch[0], ch[1])) }
        14 => { f.write_fmt(stylish::format_args!("　{c:(bold)s}{d:(fg=white)s}{b:(faint)s}\0{d:>9s}{a:(normal)s}{b:(faint)s}\0", a = ch[0], b = ch[1], c = ch[2], d = ch[3])) }
        15 => { f.write_fmt(stylish::format_args!("[{a:#(fg=magenta,bg=green)s}{c:+08.2(fg=red)s}\\n{d:(fg=green,normal)s}{b:(fg=default,)s}m0;1{b:#()s}: {d:(fg=yellow)s}", a = ch[0], b = ch[1], c = ch[2], d = ch[3])) }
        16 => { f.write_fmt(stylish::format_args!("{2:s}\u{feff}{0:#(normal,)s}&{1:>9s}", ch[0], ch[1], ch[2])) }
        17 => { f.write_fmt(stylish::format_args!("\\{:(bold,fg=cyan,bg=magenta)s}1:{0:+08.2(bold,)s}\u{feff}{0:s}", ch[0])) }
        18 => { f.write_fmt(stylish::format_args!("m0;1{0:(bg=blue)s}{:#(faint,fg=cyan,)s}\r{0:>9()s}{{}}", ch[0])) }
        19 => { f.write_fmt(stylish::format_args!("\t{0:(normal,fg=cyan)s}<b>{1:#(bg=red,bold)s}$0", ch[0], ch[1])) }
        20 => { f.write_fmt(stylish::format_args!("　{0:(fg=white,bg=magenta)s}{2:+08.2(bg=default,)s}|{1:#(faint,)s}x{3:#s}", ch[0], ch[1], ch[2], ch[3])) }
        21 => { f.write_fmt(stylish::format_args!("1:{3:(bg=blue,fg=cyan,)s}: {:(fg=yellow)s}\\{1:>9s}xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx{:>9(fg=cyan)s}m0;1{:(fg=green,)s}]", ch[0], ch[1], ch[2], ch[3])) }
        22 => { f.write_fmt(stylish::format_args!("{a:(bg=default,fg=default)s}{b:>9s}", a = ch[0], b = ch[1])) }
        23 => { f.write_fmt(stylish::format_args!("{{{:+08.2(normal,)s}", ch[0])) }
        24 => { f.write_fmt(stylish::format_args!("{:()s}", ch[0])) }
        25 => { f.write_fmt(stylish::format_args!("{:(faint,fg=yellow)s}'q'{:(fg=white,faint,)s}\n\n{:#s}", ch[0], ch[1], ch[2])) }
        26 => { let a = ch[0]; let c = ch[2]; f.write_fmt(stylish::format_args!("{b:()s} - {b:()s}[{c:+08.2(fg=yellow)s}{{{a:+08.2s}", b = ch[1])) }
        27 => { f.write_fmt(stylish::format_args!("a{{b}}c{:+08.2(fg=white,bold,bg=black)s}\u{feff}{:>9()s}{:(bold)s}{:>9(bg=default,fg=blue)s}\n\n", ch[0], ch[1], ch[2], ch[3])) }
        28 => { f.write_fmt(stylish::format_args!("[{1:(bg=green)s}{1:#(faint)s}\"{0:s}", ch[0], ch[1])) }
        29 => { f.write_fmt(stylish::format_args!("\n\n{:>9(fg=blue)s}{:#(bg=yellow)s}{1:>9(bg=black)s}é{1:+08.2()s}<!-- -->", ch[0], ch[1])) }
        30 => { f.write_fmt(stylish::format_args!("#;{:s}lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & {1:>9()s}\n\n{:(fg=cyan,faint,bg=red)s}", ch[0], ch[1])) }
        31 => { f.write_fmt(stylish::format_args!("1:{2:()s}{1:(faint,)s}\"{0:s}{3:(bg=green,faint,fg=green)s}#;", ch[0], ch[1], ch[2], ch[3])) }
        32 => { let a = ch[0]; let b = ch[1]; let d = ch[3]; f.write_fmt(stylish::format_args!("}}{a:+08.2(bold)s}\t{b:s}\r{c:(fg=cyan)s}{d:#s}%%", c = ch[2])) }
        33 => { f.write_fmt(stylish::format_args!("1:{a:(fg=red,bold,bg=default)s}  {b:s}|{b:()s}{{{c:(bg=white,fg=white)s}", a = ch[0], b = ch[1], c = ch[2])) }
        34 => { let a = ch[0]; let b = ch[1]; f.write_fmt(stylish::format_args!("{a:(fg=red)s}1:{a:()s}\r{a:(normal,bg=green)s}: {b:>9(bg=default,normal)s}m0;1")) }
        35 => { f.write_fmt(stylish::format_args!("{:>9(fg=default)s}<b>", ch[0])) }
        36 => { let a = ch[0]; let b = ch[1]; f.write_fmt(stylish::format_args!("\0{a:>9(bg=yellow,fg=cyan)s}\n{d:>9s}#;{b:s}\r{c:>9(bg=yellow,fg=yellow)s}$0", c = ch[2], d = ch[3])) }
        37 => { f.write_fmt(stylish::format_args!(" - {1:()s}<b>{0:s}{1:>9(fg=green,bg=magenta)s}  {1:>9(bold,bg=magenta)s}", ch[0], ch[1])) }
        38 => { f.write_fmt(stylish::format_args!("[{:(fg=magenta)s}0123456789012345678901234567890123456789012345678901234567890123456789{:>9(bg=white,faint)s}\r\n{:#(fg=default,bg=yellow)s}{:(fg=green,)s}é", ch[0], ch[1], ch[2], ch[3])) }
        39 => { f.write_fmt(stylish::format_args!("{:(bold,)s}{:(fg=blue)s}'q'{:>9(fg=green,)s}$0", ch[0], ch[1], ch[2])) }
        40 => { f.write_fmt(stylish::format_args!("{:(fg=magenta)s}{:(bg=white,normal)s}{{", ch[0], ch[1])) }
        41 => { f.write_fmt(stylish::format_args!("{:>9(fg=cyan)s}{:()s}{:(fg=black)s}é{:(bg=blue)s}  ", ch[0], ch[1], ch[2], ch[3])) }
        42 => { f.write_fmt(stylish::format_args!("\0{:s}{:>9(bg=yellow,normal,fg=yellow)s}\r\n{:()s}\u{feff}", ch[0], ch[1], ch[2])) }
        43 => { f.write_fmt(stylish::format_args!(": {2:(fg=blue,normal)s}é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢é{{}}漢{0:#(fg=green)s}\\n{3:#()s}]{0:#(fg=yellow,bg=blue,faint,)s}{1:+08.2()s}]", ch[0], ch[1], ch[2], ch[3])) }
        44 => { f.write_fmt(stylish::format_args!("''{d:()s}  {a:(fg=white)s}}}{c:s}<b>{b:#(fg=yellow,bg=yellow,)s}　", a = ch[0], b = ch[1], c = ch[2], d = ch[3])) }
        45 => { f.write_fmt(stylish::format_args!("{1:(fg=magenta)s}[{0:#(faint)s}[", ch[0], ch[1])) }
        46 => { f.write_fmt(stylish::format_args!("\t{c:(faint)s}\n\n{d:+08.2(fg=green,faint)s}{b:(faint,)s}\r\n{a:>9(faint,bg=blue)s}\r\n", a = ch[0], b = ch[1], c = ch[2], d = ch[3])) }
        47 => { f.write_fmt(stylish::format_args!("\r{2:(fg=blue,normal,)s}\t{3:>9(bg=red)s}<b>{0:()s}<!-- -->{1:+08.2(bg=default)s}%%", ch[0], ch[1], ch[2], ch[3])) }
        48 => { let a = ch[0]; let b = ch[1]; f.write_fmt(stylish::format_args!("x{a:#(bg=cyan)s}'q'{b:(fg=cyan,bg=yellow)s}m0;1{b:#(bg=default)s} - ")) }
        49 => { f.write_fmt(stylish::format_args!("\r{2:()s}m0;1{3:()s}　{0:>9s}{{{1:(fg=red)s}&amp;", ch[0], ch[1], ch[2], ch[3])) }
        50 => { let a = ch[0]; f.write_fmt(stylish::format_args!("\r\n{b:(fg=black)s}: {a:(faint,fg=red,bg=red)s}'q'{a:()s}{{}}", b = ch[1])) }
        51 => { f.write_fmt(stylish::format_args!("<b>{a:()s}", a = ch[0])) }
        52 => { f.write_fmt(stylish::format_args!("{a:(fg=yellow)s}{b:>9(fg=green,bold)s}\r{b:+08.2()s}: ", a = ch[0], b = ch[1])) }
        53 => { f.write_fmt(stylish::format_args!("{:s}'q'", ch[0])) }
        54 => { let a = ch[0]; let c = ch[2]; f.write_fmt(stylish::format_args!("{a:(fg=red,bold)s}\\n{c:(fg=default,bold,bg=yellow)s}  {b:()s}\"", b = ch[1])) }
        55 => { f.write_fmt(stylish::format_args!("\\{a:>9()s}1:{b:#(fg=green,faint)s}{b:+08.2(fg=green,)s}{b:(fg=black)s}\r", a = ch[0], b = ch[1])) }
        56 => { f.write_fmt(stylish::format_args!("&{:(normal,fg=red,)s}x{:+08.2s}$0{:#(bold,fg=black)s}", ch[0], ch[1], ch[2])) }
        57 => { f.write_fmt(stylish::format_args!("&{:(bg=yellow,fg=blue)s}\0", ch[0])) }
        58 => { let a = ch[0]; f.write_fmt(stylish::format_args!("　{a:(fg=default)s}\t{a:+08.2()s}  {a:(fg=cyan)s}x")) }
        59 => { f.write_fmt(stylish::format_args!("a{{b}}c{:>9()s}''{:(fg=white)s}]", ch[0], ch[1])) }
        60 => { let a = ch[0]; f.write_fmt(stylish::format_args!("x{a:#(faint)s}{b:(normal,fg=yellow)s}[{c:(fg=blue,bg=green)s}$0", b = ch[1], c = ch[2])) }
        61 => { f.write_fmt(stylish::format_args!("{:(fg=default)s}{{{:>9s}<b>{:+08.2(bg=black,fg=yellow,faint)s}{:#(normal)s}", ch[0], ch[1], ch[2], ch[3])) }
        62 => { f.write_fmt(stylish::format_args!("%%{0:(fg=default,)s}<b>{1:(normal,)s}a{{b}}c{2:+08.2()s}{0:(bold)s}|", ch[0], ch[1], ch[2])) }
        63 => { f.write_fmt(stylish::format_args!("\r\n{:+08.2s}", ch[0])) }
        64 => { f.write_fmt(stylish::format_args!("|{:>9(fg=magenta,bg=green)s}\u{feff}{:>9(bold)s}", ch[0], ch[1])) }
        65 => { f.write_fmt(stylish::format_args!("'q'{:>9(bold)s}#;{2:(fg=red)s}#;{:+08.2(normal)s}\"{2:#()s}{3:(faint,fg=magenta,bg=blue)s}x{3:(fg=yellow)s}\\n{3:(fg=black,normal)s}　{1:(bold,fg=magenta)s}\t", ch[0], ch[1], ch[2], ch[3])) }
        66 => { f.write_fmt(stylish::format_args!("#;{:(bg=green,)s}{:(bg=cyan)s}", ch[0], ch[1])) }
        67 => { f.write_fmt(stylish::format_args!("{c:>9()s}{b:(fg=red,bg=white,faint)s}&amp;{b:(fg=red)s}m0;1{a:(bg=white,bold)s}", a = ch[0], b = ch[1], c = ch[2])) }
        68 => { f.write_fmt(stylish::format_args!("<b>{0:>9(fg=yellow)s}\\n{0:()s}}}{0:#(faint)s}\"", ch[0])) }
        69 => { let a = ch[0]; let b = ch[1]; f.write_fmt(stylish::format_args!("\r\n{a:#(fg=black)s}&{b:#s}\u{feff}")) }
        70 => { f.write_fmt(stylish::format_args!("#;{1:#(fg=default)s}é{2:+08.2(fg=cyan,bold)s}a{{b}}c{1:+08.2s}{0:>9(bold)s}''{0:>9(fg=white)s}", ch[0], ch[1], ch[2])) }
        71 => { f.write_fmt(stylish::format_args!("''{b:>9(fg=white,)s}\0{a:(faint)s}é{b:+08.2(fg=yellow,normal)s}{b:>9(faint,fg=cyan)s}&amp;", a = ch[0], b = ch[1])) }
        72 => { f.write_fmt(stylish::format_args!("1:{:#(faint)s}{:(bg=cyan,)s}", ch[0], ch[1])) }
        73 => { f.write_fmt(stylish::format_args!("{:>9()s}x{:#(bg=red,fg=black,)s}{:(bg=cyan)s}é{:+08.2(bg=default)s}&", ch[0], ch[1], ch[2], ch[3])) }
        74 => { f.write_fmt(stylish::format_args!("1:{:()s}$0{:+08.2(fg=black)s}\u{feff}{:#(normal)s}: {3:#()s}{1:#(fg=default,faint)s}\"", ch[0], ch[1], ch[2], ch[3])) }
        75 => { f.write_fmt(stylish::format_args!("{0:(bg=white,)s}{:(fg=yellow,)s}{:(fg=red,faint)s}m0;1{1:>9()s}\t", ch[0], ch[1])) }
        76 => { f.write_fmt(stylish::format_args!("\\{:(fg=blue)s}$0{:(bg=default,normal)s}{:+08.2(fg=blue,)s}: {:(bg=default,)s}&amp;", ch[0], ch[1], ch[2], ch[3])) }
        77 => { f.write_fmt(stylish::format_args!("1:{c:+08.2s}%%{a:s}\u{feff}{a:(bg=white)s}{b:>9(bg=cyan,fg=green)s}: {b:#(normal)s}<!-- -->", a = ch[0], b = ch[1], c = ch[2])) }
        78 => { f.write_fmt(stylish::format_args!("\n\n{:(bg=default)s}{{}}{:+08.2(fg=default)s}%%{:+08.2(fg=white)s}\\", ch[0], ch[1], ch[2])) }
        79 => { f.write_fmt(stylish::format_args!("{:(bg=cyan,fg=yellow)s}1:{:(bg=black)s}{:(fg=white)s}{:+08.2s}é", ch[0], ch[1], ch[2], ch[3])) }
        80 => { let a = ch[0]; let b = ch[1]; let c = ch[2]; let d = ch[3]; f.write_fmt(stylish::format_args!("{b:+08.2(fg=cyan,)s}\t{b:#(fg=white)s}&amp;{a:#(bold,bg=cyan,)s}\t{a:>9(normal)s}''{c:#()s}é{d:()s}")) }
        81 => { f.write_fmt(stylish::format_args!("　{2:#(bg=cyan,fg=default)s}\"{0:#s}%%{:#(bg=blue)s}{:(fg=cyan,)s} - {3:+08.2(faint,fg=magenta)s}: {3:(faint)s}x{2:+08.2(fg=default,)s}1:{:#(fg=green)s}$0", ch[0], ch[1], ch[2], ch[3])) }
        82 => { f.write_fmt(stylish::format_args!("{b:(bg=default,fg=green)s}$0{c:(fg=green,bold)s}1:{a:(bg=cyan)s}", a = ch[0], b = ch[1], c = ch[2])) }
        83 => { f.write_fmt(stylish::format_args!("\r{a:(bg=red,fg=green)s}{a:(fg=black)s}", a = ch[0])) }
        84 => { f.write_fmt(stylish::format_args!("\r\n{0:()s} - {3:>9(fg=yellow)s}\r\n{1:>9(fg=cyan)s}: {2:#(fg=magenta)s}\n\n{0:(bg=cyan)s}{0:(faint,fg=white)s}", ch[0], ch[1], ch[2], ch[3])) }
        85 => { f.write_fmt(stylish::format_args!("{:()s}<!-- -->{:#(fg=red,bg=cyan)s}", ch[0], ch[1])) }
        86 => { f.write_fmt(stylish::format_args!("\t{0:(fg=red)s}{:()s}{0:(fg=yellow,bg=green,bold)s}  {0:+08.2(bold,bg=red,fg=default,)s}{0:(faint)s}", ch[0])) }
        87 => { f.write_fmt(stylish::format_args!("{{}}{:>9(fg=blue)s}\\n{2:>9(fg=yellow)s}$0{1:#(fg=default)s}\n\n{1:#(fg=white)s}", ch[0], ch[1], ch[2])) }
        88 => { f.write_fmt(stylish::format_args!("{:s}{:s}{:#(bg=white,)s}$0{:>9(fg=red,)s}1:", ch[0], ch[1], ch[2], ch[3])) }
        89 => { f.write_fmt(stylish::format_args!("a{{b}}c{2:#(bg=blue,fg=green,normal)s}{2:s}: {1:>9(bg=black)s}{0:#(fg=magenta,)s}{1:#(fg=black)s}|", ch[0], ch[1], ch[2])) }
        90 => { f.write_fmt(stylish::format_args!("é{8:(fg=cyan,bold,)s}{7:>9(fg=white)s}\0{4:(fg=green)s}  {5:(fg=white,faint)s}x{2:(faint,fg=blue)s}\t{0:(fg=default)s}{{{2:()s}{3:(fg=default)s}&amp;{1:()s}{6:(fg=yellow)s}　", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7], ch[8])) }
        91 => { f.write_fmt(stylish::format_args!("\"{6:(fg=red,)s}|{:#(fg=green,bg=default,)s}: {2:(faint)s}]{3:(bg=black,)s}é{7:(bold,fg=blue,)s}{7:(bg=green)s}\t{4:>9(fg=black,bg=cyan)s}&amp;{1:(fg=white,bg=default)s}　{2:#(normal,bg=red)s}x{5:>9(bold)s}{4:#()s}\\{8:()s}é", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7], ch[8])) }
        92 => { f.write_fmt(stylish::format_args!("{3:>9(fg=green)s} - {3:(faint,fg=green)s}: {0:#(normal)s}{{{1:s}\r{2:#(faint)s}m0;1{4:(fg=green)s}", ch[0], ch[1], ch[2], ch[3], ch[4])) }
        93 => { f.write_fmt(stylish::format_args!("{:(fg=green)s}<b>{:#(bg=blue)s}}}{:+08.2s}{:+08.2()s}{:+08.2(normal,bg=magenta)s}{:()s}\u{feff}{:#(fg=yellow)s}", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6])) }
        94 => { f.write_fmt(stylish::format_args!("$0{9:#(fg=magenta)s}x{4:>9s}<b>{8:(fg=cyan,)s}#;{10:s}a{{b}}c{10:(fg=white,bg=yellow,)s}{7:+08.2()s}: {3:#(faint)s}1:{2:(fg=default,bold)s}{5:(bg=green)s}[{6:+08.2(normal)s}&amp;{1:+08.2()s}{0:(fg=green,bold)s}", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7], ch[8], ch[9], ch[10])) }
        95 => { f.write_fmt(stylish::format_args!("{:+08.2(normal)s}\n\n{:#(normal,fg=red)s}{{}}{:+08.2s}'q'{:>9(bold,fg=red,)s}$0{:(bg=red,fg=blue,)s}&{:+08.2(bg=white)s}\0{:(fg=red)s}{:#(faint,fg=default)s}$0{:s}{:+08.2(fg=black)s}1:", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7], ch[8], ch[9])) }
        96 => { f.write_fmt(stylish::format_args!("é{:s}<!-- -->{:()s}<b>{:+08.2(fg=magenta)s}a{{b}}c{:(bg=yellow)s}\\{:>9()s}{:(fg=default)s}　{:()s}}}{:#(fg=green)s}é", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7])) }
        97 => { f.write_fmt(stylish::format_args!("<b>{:(fg=black,)s}<!-- -->{:#(faint,bg=red,fg=yellow)s}''{:(fg=cyan)s}}}{:#(normal,fg=yellow)s}{:(fg=default)s}\u{feff}{:(bg=green)s} - {:>9(normal)s}$0", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6])) }
        98 => { f.write_fmt(stylish::format_args!(" - {:#(normal,bg=green)s}|{:>9(fg=red)s}\0{:>9()s}]{:#s}m0;1{:(bg=green,fg=black)s}<b>{:(bg=green)s}\\{:(fg=green,bg=red)s}　{:>9(bold,bg=green)s}", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7])) }
        99 => { f.write_fmt(stylish::format_args!("x{4:>9(fg=default)s}{2:#s} - {0:()s}#;{4:+08.2(faint,fg=black,bg=black)s}|{1:#(fg=blue)s}1:{3:s}<!-- -->", ch[0], ch[1], ch[2], ch[3], ch[4])) }
        100 => { f.write_fmt(stylish::format_args!("é{6:+08.2()s}　{5:(bold)s}]{4:+08.2(fg=magenta,bg=cyan)s}{{}}{2:(fg=white)s}{1:>9(bold)s}{3:>9(bg=white,fg=green)s}{8:(bg=black)s}: {1:(fg=green,normal)s}\r{7:+08.2s}<!-- -->{0:(bg=white,normal)s}'q'{8:>9(fg=white,normal,)s}", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7], ch[8])) }
        101 => { f.write_fmt(stylish::format_args!("\\n{3:>9(fg=yellow,normal,)s}<!-- -->{0:(normal,)s}{4:>9(bg=blue)s}é{2:(fg=red)s}{5:(bg=white,fg=black)s}\r\n{6:+08.2()s}''{1:+08.2(bg=black,fg=green)s}|", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6])) }
        102 => { f.write_fmt(stylish::format_args!("{2:+08.2(normal,fg=cyan)s}{{{5:s}{9:()s}#;{6:#()s}#;{3:+08.2(fg=white)s}\n\n{7:+08.2(fg=red)s}1:{1:+08.2(bold)s}{8:>9()s}\u{feff}{4:+08.2(fg=yellow)s}m0;1{10:+08.2(faint)s}é{2:(bold,bg=blue)s}|{0:()s}é", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7], ch[8], ch[9], ch[10])) }
        103 => { f.write_fmt(stylish::format_args!("{4:(bg=yellow,fg=cyan)s}\0{0:>9(bg=white,fg=cyan)s} - {3:(fg=magenta,)s}m0;1{3:(fg=magenta)s}{{{1:(bg=red,normal)s}<b>{2:s}　{2:()s}\u{feff}", ch[0], ch[1], ch[2], ch[3], ch[4])) }
        104 => { f.write_fmt(stylish::format_args!("{{{:(bg=green)s}{5:>9()s}[{6:>9s}[{:>9s}\r{:()s}{:(bold)s}\\{7:>9(normal,)s}\0{:>9(normal)s}{5:(bg=magenta)s}", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7])) }
        105 => { f.write_fmt(stylish::format_args!("{1:#s}\u{feff}{4:+08.2(fg=green,faint)s} - {5:>9()s}''{2:()s}a{{b}}c{0:#()s}{3:(bg=default,faint,fg=blue)s}", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5])) }
        106 => { f.write_fmt(stylish::format_args!("{:(fg=default)s}\n{:(bg=red,fg=green,)s}''{:>9(normal)s}{{{:>9(bold)s}{:(fg=default)s}#;{:(normal,)s}[{:(fg=magenta)s}\n{:#(fg=green)s}{{}}{:+08.2s}\r{:#(fg=default)s}", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7], ch[8], ch[9])) }
        107 => { f.write_fmt(stylish::format_args!(": {4:>9(faint,fg=white)s}'q'{6:()s}}}{1:>9(fg=yellow)s}%%{3:+08.2(fg=default)s}{0:(fg=black)s}{2:#(bg=blue,fg=blue,bold)s}{3:s}\n\n{8:#(fg=yellow)s}{9:#(bg=blue)s}: {5:(fg=default,bg=black)s}{7:>9(bold)s}m0;1", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7], ch[8], ch[9])) }
        108 => { f.write_fmt(stylish::format_args!("|{4:>9(faint,fg=black)s}{0:(fg=red,)s}　{1:(bg=white,bold)s}{4:>9(fg=cyan)s}{2:s}{4:(faint,fg=magenta,)s}m0;1{3:()s}}}", ch[0], ch[1], ch[2], ch[3], ch[4])) }
        109 => { f.write_fmt(stylish::format_args!("　{5:s}<!-- -->{:+08.2(fg=magenta)s}: {2:(bg=cyan)s}{4:(fg=yellow)s}\\{7:(fg=default,bg=white)s}%%{:+08.2(bold,fg=magenta)s}&{:#()s}{{{6:s}\r{:(bg=red,fg=yellow,normal)s}%%{:s}é", ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6], ch[7])) }
        _ => unreachable!(),
    }
}

pub static TEMPLATES: &[(usize, &[Piece])] = &[
    (1, &[L("é"), C(0, Attr { fg: 0, bg: 0, it: 0 }), C(0, Attr { fg: 6, bg: 4, it: 3 }), C(0, Attr { fg: 0, bg: 0, it: 2 }), L("{")]),
    (1, &[L("\r\n"), C(0, Attr { fg: 4, bg: 0, it: 0 })]),
    (1, &[L("#;"), C(0, Attr { fg: 0, bg: 0, it: 2 })]),
    (1, &[L("1:"), C(0, Attr { fg: 5, bg: 0, it: 0 }), L("%%")]),
    (2, &[L(": "), C(0, Attr { fg: 0, bg: 3, it: 0 }), L("]"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("<!-- -->"), C(1, Attr { fg: 4, bg: 0, it: 2 }), L("<!-- -->")]),
    (4, &[L("é"), C(0, Attr { fg: 0, bg: 0, it: 2 }), C(1, Attr { fg: 6, bg: 0, it: 0 }), C(2, Attr { fg: 4, bg: 0, it: 0 }), L("|"), C(3, Attr { fg: 0, bg: 0, it: 2 })]),
    (4, &[C(0, Attr { fg: 5, bg: 0, it: 3 }), L("\\"), C(1, Attr { fg: 0, bg: 0, it: 3 }), L("\n\n"), C(2, Attr { fg: 0, bg: 2, it: 3 }), C(3, Attr { fg: 5, bg: 6, it: 0 })]),
    (2, &[L("{"), C(0, Attr { fg: 0, bg: 0, it: 1 }), L("\r"), C(1, Attr { fg: 1, bg: 0, it: 0 }), L("<!-- -->")]),
    (3, &[L("]"), C(0, Attr { fg: 6, bg: 0, it: 0 }), L("|"), C(2, Attr { fg: 0, bg: 0, it: 3 }), L(" - "), C(1, Attr { fg: 0, bg: 5, it: 0 }), L(": ")]),
    (2, &[L("<!-- -->"), C(1, Attr { fg: 2, bg: 5, it: 1 }), L("&amp;"), C(0, Attr { fg: 0, bg: 0, it: 0 }), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("%%"), C(1, Attr { fg: 4, bg: 0, it: 0 })]),
    (1, &[L("\""), C(0, Attr { fg: 3, bg: 7, it: 0 }), C(0, Attr { fg: 0, bg: 2, it: 0 }), L("<!-- -->"), C(0, Attr { fg: 6, bg: 0, it: 0 }), L("a{b}c"), C(0, Attr { fg: 9, bg: 0, it: 0 }), L("　")]),
    (1, &[L(": "), C(0, Attr { fg: 0, bg: 0, it: 1 }), L("\\")]),
    (4, &[L("''"), C(0, Attr { fg: 7, bg: 0, it: 0 }), L("&"), C(1, Attr { fg: 0, bg: 0, it: 0 }), C(2, Attr { fg: 0, bg: 0, it: 0 }), L("x"), C(3, Attr { fg: 0, bg: 0, it: 0 })]),
    (2, &[L("{}"), C(1, Attr { fg: 8, bg: 0, it: 1 }), L("<!-- -->"), C(0, Attr { fg: 0, bg: 0, it: 2 }), C(1, Attr { fg: 0, bg: 0, it: 0 }), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("}")]),
    (4, &[L("　"), C(2, Attr { fg: 0, bg: 0, it: 2 }), C(3, Attr { fg: 9, bg: 0, it: 0 }), C(1, Attr { fg: 0, bg: 0, it: 3 }), L("\0"), C(3, Attr { fg: 0, bg: 0, it: 0 }), C(0, Attr { fg: 0, bg: 0, it: 1 }), C(1, Attr { fg: 0, bg: 0, it: 3 }), L("\0")]),
    (4, &[L("["), C(0, Attr { fg: 7, bg: 4, it: 0 }), C(2, Attr { fg: 3, bg: 0, it: 0 }), L("\\n"), C(3, Attr { fg: 4, bg: 0, it: 1 }), C(1, Attr { fg: 1, bg: 0, it: 0 }), L("m0;1"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L(": "), C(3, Attr { fg: 5, bg: 0, it: 0 })]),
    (3, &[C(2, Attr { fg: 0, bg: 0, it: 0 }), L("\u{feff}"), C(0, Attr { fg: 0, bg: 0, it: 1 }), L("&"), C(1, Attr { fg: 0, bg: 0, it: 0 })]),
    (1, &[L("\\"), C(0, Attr { fg: 8, bg: 7, it: 2 }), L("1:"), C(0, Attr { fg: 0, bg: 0, it: 2 }), L("\u{feff}"), C(0, Attr { fg: 0, bg: 0, it: 0 })]),
    (1, &[L("m0;1"), C(0, Attr { fg: 0, bg: 6, it: 0 }), C(0, Attr { fg: 8, bg: 0, it: 3 }), L("\r"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("{}")]),
    (2, &[L("\t"), C(0, Attr { fg: 8, bg: 0, it: 1 }), L("<b>"), C(1, Attr { fg: 0, bg: 3, it: 2 }), L("$0")]),
    (4, &[L("　"), C(0, Attr { fg: 9, bg: 7, it: 0 }), C(2, Attr { fg: 0, bg: 1, it: 0 }), L("|"), C(1, Attr { fg: 0, bg: 0, it: 3 }), L("x"), C(3, Attr { fg: 0, bg: 0, it: 0 })]),
    (4, &[L("1:"), C(3, Attr { fg: 8, bg: 6, it: 0 }), L(": "), C(0, Attr { fg: 5, bg: 0, it: 0 }), L("\\"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"), C(1, Attr { fg: 8, bg: 0, it: 0 }), L("m0;1"), C(2, Attr { fg: 4, bg: 0, it: 0 }), L("]")]),
    (2, &[C(0, Attr { fg: 1, bg: 1, it: 0 }), C(1, Attr { fg: 0, bg: 0, it: 0 })]),
    (1, &[L("{"), C(0, Attr { fg: 0, bg: 0, it: 1 })]),
    (1, &[C(0, Attr { fg: 0, bg: 0, it: 0 })]),
    (3, &[C(0, Attr { fg: 5, bg: 0, it: 3 }), L("'q'"), C(1, Attr { fg: 9, bg: 0, it: 3 }), L("\n\n"), C(2, Attr { fg: 0, bg: 0, it: 0 })]),
    (3, &[C(1, Attr { fg: 0, bg: 0, it: 0 }), L(" - "), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("["), C(2, Attr { fg: 5, bg: 0, it: 0 }), L("{"), C(0, Attr { fg: 0, bg: 0, it: 0 })]),
    (4, &[L("a{b}c"), C(0, Attr { fg: 9, bg: 2, it: 2 }), L("\u{feff}"), C(1, Attr { fg: 0, bg: 0, it: 0 }), C(2, Attr { fg: 0, bg: 0, it: 2 }), C(3, Attr { fg: 6, bg: 1, it: 0 }), L("\n\n")]),
    (2, &[L("["), C(1, Attr { fg: 0, bg: 4, it: 0 }), C(1, Attr { fg: 0, bg: 0, it: 3 }), L("\""), C(0, Attr { fg: 0, bg: 0, it: 0 })]),
    (2, &[L("\n\n"), C(0, Attr { fg: 6, bg: 0, it: 0 }), C(1, Attr { fg: 0, bg: 5, it: 0 }), C(1, Attr { fg: 0, bg: 2, it: 0 }), L("é"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("<!-- -->")]),
    (2, &[L("#;"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & lorem <i> & "), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("\n\n"), C(1, Attr { fg: 8, bg: 3, it: 3 })]),
    (4, &[L("1:"), C(2, Attr { fg: 0, bg: 0, it: 0 }), C(1, Attr { fg: 0, bg: 0, it: 3 }), L("\""), C(0, Attr { fg: 0, bg: 0, it: 0 }), C(3, Attr { fg: 4, bg: 4, it: 3 }), L("#;")]),
    (4, &[L("}"), C(0, Attr { fg: 0, bg: 0, it: 2 }), L("\t"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("\r"), C(2, Attr { fg: 8, bg: 0, it: 0 }), C(3, Attr { fg: 0, bg: 0, it: 0 }), L("%%")]),
    (3, &[L("1:"), C(0, Attr { fg: 3, bg: 1, it: 2 }), L("  "), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("|"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("{"), C(2, Attr { fg: 9, bg: 9, it: 0 })]),
    (2, &[C(0, Attr { fg: 3, bg: 0, it: 0 }), L("1:"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("\r"), C(0, Attr { fg: 0, bg: 4, it: 1 }), L(": "), C(1, Attr { fg: 0, bg: 1, it: 1 }), L("m0;1")]),
    (1, &[C(0, Attr { fg: 1, bg: 0, it: 0 }), L("<b>")]),
    (4, &[L("\0"), C(0, Attr { fg: 8, bg: 5, it: 0 }), L("\n"), C(3, Attr { fg: 0, bg: 0, it: 0 }), L("#;"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("\r"), C(2, Attr { fg: 5, bg: 5, it: 0 }), L("$0")]),
    (2, &[L(" - "), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("<b>"), C(0, Attr { fg: 0, bg: 0, it: 0 }), C(1, Attr { fg: 4, bg: 7, it: 0 }), L("  "), C(1, Attr { fg: 0, bg: 7, it: 2 })]),
    (4, &[L("["), C(0, Attr { fg: 7, bg: 0, it: 0 }), L("0123456789012345678901234567890123456789012345678901234567890123456789"), C(1, Attr { fg: 0, bg: 9, it: 3 }), L("\r\n"), C(2, Attr { fg: 1, bg: 5, it: 0 }), C(3, Attr { fg: 4, bg: 0, it: 0 }), L("é")]),
    (3, &[C(0, Attr { fg: 0, bg: 0, it: 2 }), C(1, Attr { fg: 6, bg: 0, it: 0 }), L("'q'"), C(2, Attr { fg: 4, bg: 0, it: 0 }), L("$0")]),
    (2, &[C(0, Attr { fg: 7, bg: 0, it: 0 }), C(1, Attr { fg: 0, bg: 9, it: 1 }), L("{")]),
    (4, &[C(0, Attr { fg: 8, bg: 0, it: 0 }), C(1, Attr { fg: 0, bg: 0, it: 0 }), C(2, Attr { fg: 2, bg: 0, it: 0 }), L("é"), C(3, Attr { fg: 0, bg: 6, it: 0 }), L("  ")]),
    (3, &[L("\0"), C(0, Attr { fg: 0, bg: 0, it: 0 }), C(1, Attr { fg: 5, bg: 5, it: 1 }), L("\r\n"), C(2, Attr { fg: 0, bg: 0, it: 0 }), L("\u{feff}")]),
    (4, &[L(": "), C(2, Attr { fg: 6, bg: 0, it: 1 }), L("é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢é{}漢"), C(0, Attr { fg: 4, bg: 0, it: 0 }), L("\\n"), C(3, Attr { fg: 0, bg: 0, it: 0 }), L("]"), C(0, Attr { fg: 5, bg: 6, it: 3 }), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("]")]),
    (4, &[L("''"), C(3, Attr { fg: 0, bg: 0, it: 0 }), L("  "), C(0, Attr { fg: 9, bg: 0, it: 0 }), L("}"), C(2, Attr { fg: 0, bg: 0, it: 0 }), L("<b>"), C(1, Attr { fg: 5, bg: 5, it: 0 }), L("　")]),
    (2, &[C(1, Attr { fg: 7, bg: 0, it: 0 }), L("["), C(0, Attr { fg: 0, bg: 0, it: 3 }), L("[")]),
    (4, &[L("\t"), C(2, Attr { fg: 0, bg: 0, it: 3 }), L("\n\n"), C(3, Attr { fg: 4, bg: 0, it: 3 }), C(1, Attr { fg: 0, bg: 0, it: 3 }), L("\r\n"), C(0, Attr { fg: 0, bg: 6, it: 3 }), L("\r\n")]),
    (4, &[L("\r"), C(2, Attr { fg: 6, bg: 0, it: 1 }), L("\t"), C(3, Attr { fg: 0, bg: 3, it: 0 }), L("<b>"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("<!-- -->"), C(1, Attr { fg: 0, bg: 1, it: 0 }), L("%%")]),
    (2, &[L("x"), C(0, Attr { fg: 0, bg: 8, it: 0 }), L("'q'"), C(1, Attr { fg: 8, bg: 5, it: 0 }), L("m0;1"), C(1, Attr { fg: 0, bg: 1, it: 0 }), L(" - ")]),
    (4, &[L("\r"), C(2, Attr { fg: 0, bg: 0, it: 0 }), L("m0;1"), C(3, Attr { fg: 0, bg: 0, it: 0 }), L("　"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("{"), C(1, Attr { fg: 3, bg: 0, it: 0 }), L("&amp;")]),
    (2, &[L("\r\n"), C(1, Attr { fg: 2, bg: 0, it: 0 }), L(": "), C(0, Attr { fg: 3, bg: 3, it: 3 }), L("'q'"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("{}")]),
    (1, &[L("<b>"), C(0, Attr { fg: 0, bg: 0, it: 0 })]),
    (2, &[C(0, Attr { fg: 5, bg: 0, it: 0 }), C(1, Attr { fg: 4, bg: 0, it: 2 }), L("\r"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L(": ")]),
    (1, &[C(0, Attr { fg: 0, bg: 0, it: 0 }), L("'q'")]),
    (3, &[C(0, Attr { fg: 3, bg: 0, it: 2 }), L("\\n"), C(2, Attr { fg: 1, bg: 5, it: 2 }), L("  "), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("\"")]),
    (2, &[L("\\"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("1:"), C(1, Attr { fg: 4, bg: 0, it: 3 }), C(1, Attr { fg: 4, bg: 0, it: 0 }), C(1, Attr { fg: 2, bg: 0, it: 0 }), L("\r")]),
    (3, &[L("&"), C(0, Attr { fg: 3, bg: 0, it: 1 }), L("x"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("$0"), C(2, Attr { fg: 2, bg: 0, it: 2 })]),
    (1, &[L("&"), C(0, Attr { fg: 6, bg: 5, it: 0 }), L("\0")]),
    (1, &[L("　"), C(0, Attr { fg: 1, bg: 0, it: 0 }), L("\t"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("  "), C(0, Attr { fg: 8, bg: 0, it: 0 }), L("x")]),
    (2, &[L("a{b}c"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("''"), C(1, Attr { fg: 9, bg: 0, it: 0 }), L("]")]),
    (3, &[L("x"), C(0, Attr { fg: 0, bg: 0, it: 3 }), C(1, Attr { fg: 5, bg: 0, it: 1 }), L("["), C(2, Attr { fg: 6, bg: 4, it: 0 }), L("$0")]),
    (4, &[C(0, Attr { fg: 1, bg: 0, it: 0 }), L("{"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("<b>"), C(2, Attr { fg: 5, bg: 2, it: 3 }), C(3, Attr { fg: 0, bg: 0, it: 1 })]),
    (3, &[L("%%"), C(0, Attr { fg: 1, bg: 0, it: 0 }), L("<b>"), C(1, Attr { fg: 0, bg: 0, it: 1 }), L("a{b}c"), C(2, Attr { fg: 0, bg: 0, it: 0 }), C(0, Attr { fg: 0, bg: 0, it: 2 }), L("|")]),
    (1, &[L("\r\n"), C(0, Attr { fg: 0, bg: 0, it: 0 })]),
    (2, &[L("|"), C(0, Attr { fg: 7, bg: 4, it: 0 }), L("\u{feff}"), C(1, Attr { fg: 0, bg: 0, it: 2 })]),
    (4, &[L("'q'"), C(0, Attr { fg: 0, bg: 0, it: 2 }), L("#;"), C(2, Attr { fg: 3, bg: 0, it: 0 }), L("#;"), C(1, Attr { fg: 0, bg: 0, it: 1 }), L("\""), C(2, Attr { fg: 0, bg: 0, it: 0 }), C(3, Attr { fg: 7, bg: 6, it: 3 }), L("x"), C(3, Attr { fg: 5, bg: 0, it: 0 }), L("\\n"), C(3, Attr { fg: 2, bg: 0, it: 1 }), L("　"), C(1, Attr { fg: 7, bg: 0, it: 2 }), L("\t")]),
    (2, &[L("#;"), C(0, Attr { fg: 0, bg: 4, it: 0 }), C(1, Attr { fg: 0, bg: 8, it: 0 })]),
    (3, &[C(2, Attr { fg: 0, bg: 0, it: 0 }), C(1, Attr { fg: 3, bg: 9, it: 3 }), L("&amp;"), C(1, Attr { fg: 3, bg: 0, it: 0 }), L("m0;1"), C(0, Attr { fg: 0, bg: 9, it: 2 })]),
    (1, &[L("<b>"), C(0, Attr { fg: 5, bg: 0, it: 0 }), L("\\n"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("}"), C(0, Attr { fg: 0, bg: 0, it: 3 }), L("\"")]),
    (2, &[L("\r\n"), C(0, Attr { fg: 2, bg: 0, it: 0 }), L("&"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("\u{feff}")]),
    (3, &[L("#;"), C(1, Attr { fg: 1, bg: 0, it: 0 }), L("é"), C(2, Attr { fg: 8, bg: 0, it: 2 }), L("a{b}c"), C(1, Attr { fg: 0, bg: 0, it: 0 }), C(0, Attr { fg: 0, bg: 0, it: 2 }), L("''"), C(0, Attr { fg: 9, bg: 0, it: 0 })]),
    (2, &[L("''"), C(1, Attr { fg: 9, bg: 0, it: 0 }), L("\0"), C(0, Attr { fg: 0, bg: 0, it: 3 }), L("é"), C(1, Attr { fg: 5, bg: 0, it: 1 }), C(1, Attr { fg: 8, bg: 0, it: 3 }), L("&amp;")]),
    (2, &[L("1:"), C(0, Attr { fg: 0, bg: 0, it: 3 }), C(1, Attr { fg: 0, bg: 8, it: 0 })]),
    (4, &[C(0, Attr { fg: 0, bg: 0, it: 0 }), L("x"), C(1, Attr { fg: 2, bg: 3, it: 0 }), C(2, Attr { fg: 0, bg: 8, it: 0 }), L("é"), C(3, Attr { fg: 0, bg: 1, it: 0 }), L("&")]),
    (4, &[L("1:"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("$0"), C(1, Attr { fg: 2, bg: 0, it: 0 }), L("\u{feff}"), C(2, Attr { fg: 0, bg: 0, it: 1 }), L(": "), C(3, Attr { fg: 0, bg: 0, it: 0 }), C(1, Attr { fg: 1, bg: 0, it: 3 }), L("\"")]),
    (2, &[C(0, Attr { fg: 0, bg: 9, it: 0 }), C(0, Attr { fg: 5, bg: 0, it: 0 }), C(1, Attr { fg: 3, bg: 0, it: 3 }), L("m0;1"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("\t")]),
    (4, &[L("\\"), C(0, Attr { fg: 6, bg: 0, it: 0 }), L("$0"), C(1, Attr { fg: 0, bg: 1, it: 1 }), C(2, Attr { fg: 6, bg: 0, it: 0 }), L(": "), C(3, Attr { fg: 0, bg: 1, it: 0 }), L("&amp;")]),
    (3, &[L("1:"), C(2, Attr { fg: 0, bg: 0, it: 0 }), L("%%"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("\u{feff}"), C(0, Attr { fg: 0, bg: 9, it: 0 }), C(1, Attr { fg: 4, bg: 8, it: 0 }), L(": "), C(1, Attr { fg: 0, bg: 0, it: 1 }), L("<!-- -->")]),
    (3, &[L("\n\n"), C(0, Attr { fg: 0, bg: 1, it: 0 }), L("{}"), C(1, Attr { fg: 1, bg: 0, it: 0 }), L("%%"), C(2, Attr { fg: 9, bg: 0, it: 0 }), L("\\")]),
    (4, &[C(0, Attr { fg: 5, bg: 8, it: 0 }), L("1:"), C(1, Attr { fg: 0, bg: 2, it: 0 }), C(2, Attr { fg: 9, bg: 0, it: 0 }), C(3, Attr { fg: 0, bg: 0, it: 0 }), L("é")]),
    (4, &[C(1, Attr { fg: 8, bg: 0, it: 0 }), L("\t"), C(1, Attr { fg: 9, bg: 0, it: 0 }), L("&amp;"), C(0, Attr { fg: 0, bg: 8, it: 2 }), L("\t"), C(0, Attr { fg: 0, bg: 0, it: 1 }), L("''"), C(2, Attr { fg: 0, bg: 0, it: 0 }), L("é"), C(3, Attr { fg: 0, bg: 0, it: 0 })]),
    (4, &[L("　"), C(2, Attr { fg: 1, bg: 8, it: 0 }), L("\""), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("%%"), C(0, Attr { fg: 0, bg: 6, it: 0 }), C(1, Attr { fg: 8, bg: 0, it: 0 }), L(" - "), C(3, Attr { fg: 7, bg: 0, it: 3 }), L(": "), C(3, Attr { fg: 0, bg: 0, it: 3 }), L("x"), C(2, Attr { fg: 1, bg: 0, it: 0 }), L("1:"), C(2, Attr { fg: 4, bg: 0, it: 0 }), L("$0")]),
    (3, &[C(1, Attr { fg: 4, bg: 1, it: 0 }), L("$0"), C(2, Attr { fg: 4, bg: 0, it: 2 }), L("1:"), C(0, Attr { fg: 0, bg: 8, it: 0 })]),
    (1, &[L("\r"), C(0, Attr { fg: 4, bg: 3, it: 0 }), C(0, Attr { fg: 2, bg: 0, it: 0 })]),
    (4, &[L("\r\n"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L(" - "), C(3, Attr { fg: 5, bg: 0, it: 0 }), L("\r\n"), C(1, Attr { fg: 8, bg: 0, it: 0 }), L(": "), C(2, Attr { fg: 7, bg: 0, it: 0 }), L("\n\n"), C(0, Attr { fg: 0, bg: 8, it: 0 }), C(0, Attr { fg: 9, bg: 0, it: 3 })]),
    (2, &[C(0, Attr { fg: 0, bg: 0, it: 0 }), L("<!-- -->"), C(1, Attr { fg: 3, bg: 8, it: 0 })]),
    (1, &[L("\t"), C(0, Attr { fg: 3, bg: 0, it: 0 }), C(0, Attr { fg: 0, bg: 0, it: 0 }), C(0, Attr { fg: 5, bg: 4, it: 2 }), L("  "), C(0, Attr { fg: 1, bg: 3, it: 2 }), C(0, Attr { fg: 0, bg: 0, it: 3 })]),
    (3, &[L("{}"), C(0, Attr { fg: 6, bg: 0, it: 0 }), L("\\n"), C(2, Attr { fg: 5, bg: 0, it: 0 }), L("$0"), C(1, Attr { fg: 1, bg: 0, it: 0 }), L("\n\n"), C(1, Attr { fg: 9, bg: 0, it: 0 })]),
    (4, &[C(0, Attr { fg: 0, bg: 0, it: 0 }), C(1, Attr { fg: 0, bg: 0, it: 0 }), C(2, Attr { fg: 0, bg: 9, it: 0 }), L("$0"), C(3, Attr { fg: 3, bg: 0, it: 0 }), L("1:")]),
    (3, &[L("a{b}c"), C(2, Attr { fg: 4, bg: 6, it: 1 }), C(2, Attr { fg: 0, bg: 0, it: 0 }), L(": "), C(1, Attr { fg: 0, bg: 2, it: 0 }), C(0, Attr { fg: 7, bg: 0, it: 0 }), C(1, Attr { fg: 2, bg: 0, it: 0 }), L("|")]),
    (9, &[L("é"), C(8, Attr { fg: 8, bg: 0, it: 2 }), C(7, Attr { fg: 9, bg: 0, it: 0 }), L("\0"), C(4, Attr { fg: 4, bg: 0, it: 0 }), L("  "), C(5, Attr { fg: 9, bg: 0, it: 3 }), L("x"), C(2, Attr { fg: 6, bg: 0, it: 3 }), L("\t"), C(0, Attr { fg: 1, bg: 0, it: 0 }), L("{"), C(2, Attr { fg: 0, bg: 0, it: 0 }), C(3, Attr { fg: 1, bg: 0, it: 0 }), L("&amp;"), C(1, Attr { fg: 0, bg: 0, it: 0 }), C(6, Attr { fg: 5, bg: 0, it: 0 }), L("　")]),
    (9, &[L("\""), C(6, Attr { fg: 3, bg: 0, it: 0 }), L("|"), C(0, Attr { fg: 4, bg: 1, it: 0 }), L(": "), C(2, Attr { fg: 0, bg: 0, it: 3 }), L("]"), C(3, Attr { fg: 0, bg: 2, it: 0 }), L("é"), C(7, Attr { fg: 6, bg: 0, it: 2 }), C(7, Attr { fg: 0, bg: 4, it: 0 }), L("\t"), C(4, Attr { fg: 2, bg: 8, it: 0 }), L("&amp;"), C(1, Attr { fg: 9, bg: 1, it: 0 }), L("　"), C(2, Attr { fg: 0, bg: 3, it: 1 }), L("x"), C(5, Attr { fg: 0, bg: 0, it: 2 }), C(4, Attr { fg: 0, bg: 0, it: 0 }), L("\\"), C(8, Attr { fg: 0, bg: 0, it: 0 }), L("é")]),
    (5, &[C(3, Attr { fg: 4, bg: 0, it: 0 }), L(" - "), C(3, Attr { fg: 4, bg: 0, it: 3 }), L(": "), C(0, Attr { fg: 0, bg: 0, it: 1 }), L("{"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("\r"), C(2, Attr { fg: 0, bg: 0, it: 3 }), L("m0;1"), C(4, Attr { fg: 4, bg: 0, it: 0 })]),
    (7, &[C(0, Attr { fg: 4, bg: 0, it: 0 }), L("<b>"), C(1, Attr { fg: 0, bg: 6, it: 0 }), L("}"), C(2, Attr { fg: 0, bg: 0, it: 0 }), C(3, Attr { fg: 0, bg: 0, it: 0 }), C(4, Attr { fg: 0, bg: 7, it: 1 }), C(5, Attr { fg: 0, bg: 0, it: 0 }), L("\u{feff}"), C(6, Attr { fg: 5, bg: 0, it: 0 })]),
    (11, &[L("$0"), C(9, Attr { fg: 7, bg: 0, it: 0 }), L("x"), C(4, Attr { fg: 0, bg: 0, it: 0 }), L("<b>"), C(8, Attr { fg: 8, bg: 0, it: 0 }), L("#;"), C(10, Attr { fg: 0, bg: 0, it: 0 }), L("a{b}c"), C(10, Attr { fg: 9, bg: 5, it: 0 }), C(7, Attr { fg: 0, bg: 0, it: 0 }), L(": "), C(3, Attr { fg: 0, bg: 0, it: 3 }), L("1:"), C(2, Attr { fg: 1, bg: 0, it: 2 }), C(5, Attr { fg: 0, bg: 4, it: 0 }), L("["), C(6, Attr { fg: 0, bg: 0, it: 1 }), L("&amp;"), C(1, Attr { fg: 0, bg: 0, it: 0 }), C(0, Attr { fg: 4, bg: 0, it: 2 })]),
    (10, &[C(0, Attr { fg: 0, bg: 0, it: 1 }), L("\n\n"), C(1, Attr { fg: 3, bg: 0, it: 1 }), L("{}"), C(2, Attr { fg: 0, bg: 0, it: 0 }), L("'q'"), C(3, Attr { fg: 3, bg: 0, it: 2 }), L("$0"), C(4, Attr { fg: 6, bg: 3, it: 0 }), L("&"), C(5, Attr { fg: 0, bg: 9, it: 0 }), L("\0"), C(6, Attr { fg: 3, bg: 0, it: 0 }), C(7, Attr { fg: 1, bg: 0, it: 3 }), L("$0"), C(8, Attr { fg: 0, bg: 0, it: 0 }), C(9, Attr { fg: 2, bg: 0, it: 0 }), L("1:")]),
    (8, &[L("é"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("<!-- -->"), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("<b>"), C(2, Attr { fg: 7, bg: 0, it: 0 }), L("a{b}c"), C(3, Attr { fg: 0, bg: 5, it: 0 }), L("\\"), C(4, Attr { fg: 0, bg: 0, it: 0 }), C(5, Attr { fg: 1, bg: 0, it: 0 }), L("　"), C(6, Attr { fg: 0, bg: 0, it: 0 }), L("}"), C(7, Attr { fg: 4, bg: 0, it: 0 }), L("é")]),
    (7, &[L("<b>"), C(0, Attr { fg: 2, bg: 0, it: 0 }), L("<!-- -->"), C(1, Attr { fg: 5, bg: 3, it: 3 }), L("''"), C(2, Attr { fg: 8, bg: 0, it: 0 }), L("}"), C(3, Attr { fg: 5, bg: 0, it: 1 }), C(4, Attr { fg: 1, bg: 0, it: 0 }), L("\u{feff}"), C(5, Attr { fg: 0, bg: 4, it: 0 }), L(" - "), C(6, Attr { fg: 0, bg: 0, it: 1 }), L("$0")]),
    (8, &[L(" - "), C(0, Attr { fg: 0, bg: 4, it: 1 }), L("|"), C(1, Attr { fg: 3, bg: 0, it: 0 }), L("\0"), C(2, Attr { fg: 0, bg: 0, it: 0 }), L("]"), C(3, Attr { fg: 0, bg: 0, it: 0 }), L("m0;1"), C(4, Attr { fg: 2, bg: 4, it: 0 }), L("<b>"), C(5, Attr { fg: 0, bg: 4, it: 0 }), L("\\"), C(6, Attr { fg: 4, bg: 3, it: 0 }), L("　"), C(7, Attr { fg: 0, bg: 4, it: 2 })]),
    (5, &[L("x"), C(4, Attr { fg: 1, bg: 0, it: 0 }), C(2, Attr { fg: 0, bg: 0, it: 0 }), L(" - "), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("#;"), C(4, Attr { fg: 2, bg: 2, it: 3 }), L("|"), C(1, Attr { fg: 6, bg: 0, it: 0 }), L("1:"), C(3, Attr { fg: 0, bg: 0, it: 0 }), L("<!-- -->")]),
    (9, &[L("é"), C(6, Attr { fg: 0, bg: 0, it: 0 }), L("　"), C(5, Attr { fg: 0, bg: 0, it: 2 }), L("]"), C(4, Attr { fg: 7, bg: 8, it: 0 }), L("{}"), C(2, Attr { fg: 9, bg: 0, it: 0 }), C(1, Attr { fg: 0, bg: 0, it: 2 }), C(3, Attr { fg: 4, bg: 9, it: 0 }), C(8, Attr { fg: 0, bg: 2, it: 0 }), L(": "), C(1, Attr { fg: 4, bg: 0, it: 1 }), L("\r"), C(7, Attr { fg: 0, bg: 0, it: 0 }), L("<!-- -->"), C(0, Attr { fg: 0, bg: 9, it: 1 }), L("'q'"), C(8, Attr { fg: 9, bg: 0, it: 1 })]),
    (7, &[L("\\n"), C(3, Attr { fg: 5, bg: 0, it: 1 }), L("<!-- -->"), C(0, Attr { fg: 0, bg: 0, it: 1 }), C(4, Attr { fg: 0, bg: 6, it: 0 }), L("é"), C(2, Attr { fg: 3, bg: 0, it: 0 }), C(5, Attr { fg: 2, bg: 9, it: 0 }), L("\r\n"), C(6, Attr { fg: 0, bg: 0, it: 0 }), L("''"), C(1, Attr { fg: 4, bg: 2, it: 0 }), L("|")]),
    (11, &[C(2, Attr { fg: 8, bg: 0, it: 1 }), L("{"), C(5, Attr { fg: 0, bg: 0, it: 0 }), C(9, Attr { fg: 0, bg: 0, it: 0 }), L("#;"), C(6, Attr { fg: 0, bg: 0, it: 0 }), L("#;"), C(3, Attr { fg: 9, bg: 0, it: 0 }), L("\n\n"), C(7, Attr { fg: 3, bg: 0, it: 0 }), L("1:"), C(1, Attr { fg: 0, bg: 0, it: 2 }), C(8, Attr { fg: 0, bg: 0, it: 0 }), L("\u{feff}"), C(4, Attr { fg: 5, bg: 0, it: 0 }), L("m0;1"), C(10, Attr { fg: 0, bg: 0, it: 3 }), L("é"), C(2, Attr { fg: 0, bg: 6, it: 2 }), L("|"), C(0, Attr { fg: 0, bg: 0, it: 0 }), L("é")]),
    (5, &[C(4, Attr { fg: 8, bg: 5, it: 0 }), L("\0"), C(0, Attr { fg: 8, bg: 9, it: 0 }), L(" - "), C(3, Attr { fg: 7, bg: 0, it: 0 }), L("m0;1"), C(3, Attr { fg: 7, bg: 0, it: 0 }), L("{"), C(1, Attr { fg: 0, bg: 3, it: 1 }), L("<b>"), C(2, Attr { fg: 0, bg: 0, it: 0 }), L("　"), C(2, Attr { fg: 0, bg: 0, it: 0 }), L("\u{feff}")]),
    (8, &[L("{"), C(0, Attr { fg: 0, bg: 4, it: 0 }), C(5, Attr { fg: 0, bg: 0, it: 0 }), L("["), C(6, Attr { fg: 0, bg: 0, it: 0 }), L("["), C(1, Attr { fg: 0, bg: 0, it: 0 }), L("\r"), C(2, Attr { fg: 0, bg: 0, it: 0 }), C(3, Attr { fg: 0, bg: 0, it: 2 }), L("\\"), C(7, Attr { fg: 0, bg: 0, it: 1 }), L("\0"), C(4, Attr { fg: 0, bg: 0, it: 1 }), C(5, Attr { fg: 0, bg: 7, it: 0 })]),
    (6, &[C(1, Attr { fg: 0, bg: 0, it: 0 }), L("\u{feff}"), C(4, Attr { fg: 4, bg: 0, it: 3 }), L(" - "), C(5, Attr { fg: 0, bg: 0, it: 0 }), L("''"), C(2, Attr { fg: 0, bg: 0, it: 0 }), L("a{b}c"), C(0, Attr { fg: 0, bg: 0, it: 0 }), C(3, Attr { fg: 6, bg: 1, it: 3 })]),
    (10, &[C(0, Attr { fg: 1, bg: 0, it: 0 }), L("\n"), C(1, Attr { fg: 4, bg: 3, it: 0 }), L("''"), C(2, Attr { fg: 0, bg: 0, it: 1 }), L("{"), C(3, Attr { fg: 0, bg: 0, it: 2 }), C(4, Attr { fg: 1, bg: 0, it: 0 }), L("#;"), C(5, Attr { fg: 0, bg: 0, it: 1 }), L("["), C(6, Attr { fg: 7, bg: 0, it: 0 }), L("\n"), C(7, Attr { fg: 4, bg: 0, it: 0 }), L("{}"), C(8, Attr { fg: 0, bg: 0, it: 0 }), L("\r"), C(9, Attr { fg: 1, bg: 0, it: 0 })]),
    (10, &[L(": "), C(4, Attr { fg: 9, bg: 0, it: 3 }), L("'q'"), C(6, Attr { fg: 0, bg: 0, it: 0 }), L("}"), C(1, Attr { fg: 5, bg: 0, it: 0 }), L("%%"), C(3, Attr { fg: 1, bg: 0, it: 0 }), C(0, Attr { fg: 2, bg: 0, it: 0 }), C(2, Attr { fg: 6, bg: 6, it: 2 }), C(3, Attr { fg: 0, bg: 0, it: 0 }), L("\n\n"), C(8, Attr { fg: 5, bg: 0, it: 0 }), C(9, Attr { fg: 0, bg: 6, it: 0 }), L(": "), C(5, Attr { fg: 1, bg: 2, it: 0 }), C(7, Attr { fg: 0, bg: 0, it: 2 }), L("m0;1")]),
    (5, &[L("|"), C(4, Attr { fg: 2, bg: 0, it: 3 }), C(0, Attr { fg: 3, bg: 0, it: 0 }), L("　"), C(1, Attr { fg: 0, bg: 9, it: 2 }), C(4, Attr { fg: 8, bg: 0, it: 0 }), C(2, Attr { fg: 0, bg: 0, it: 0 }), C(4, Attr { fg: 7, bg: 0, it: 3 }), L("m0;1"), C(3, Attr { fg: 0, bg: 0, it: 0 }), L("}")]),
    (8, &[L("　"), C(5, Attr { fg: 0, bg: 0, it: 0 }), L("<!-- -->"), C(0, Attr { fg: 7, bg: 0, it: 0 }), L(": "), C(2, Attr { fg: 0, bg: 8, it: 0 }), C(4, Attr { fg: 5, bg: 0, it: 0 }), L("\\"), C(7, Attr { fg: 1, bg: 9, it: 0 }), L("%%"), C(1, Attr { fg: 7, bg: 0, it: 2 }), L("&"), C(2, Attr { fg: 0, bg: 0, it: 0 }), L("{"), C(6, Attr { fg: 0, bg: 0, it: 0 }), L("\r"), C(3, Attr { fg: 5, bg: 3, it: 1 }), L("%%"), C(4, Attr { fg: 0, bg: 0, it: 0 }), L("é")]),
];
