# Presentation-language integers and vector lengths (C05). An explicit panic of these functions is their
# error outcome: marshal and unmarshal recover it. Runtime panics (index, slice bounds, negative sizes) are
# asserted not to happen.

# the variable-length integer of n bytes that carries u: two bits of length, then u
spec vlen(u) = ite(u < 64, 1, ite(u < 16384, 2, ite(u < 1073741824, 4, 8)))
spec vtop(n) = ite(n == 1, 0, ite(n == 2, 16384, ite(n == 4, 2147483648, 13835058055282163712)))
spec vmax(n) = ite(n == 1, 64, ite(n == 2, 16384, ite(n == 4, 1073741824, 4611686018427387904)))
spec vbytes(u, n) = be(vtop(n) + u, n)
spec vlenOf(b) = ite(b < 64, 1, ite(b < 128, 2, ite(b < 192, 4, 8)))
spec pow(n) = ite(n == 0, 1, ite(n == 1, 256, ite(n == 2, 65536, ite(n == 3, 16777216, ite(n == 4, 4294967296, ite(n == 5, 1099511627776, ite(n == 6, 281474976710656, ite(n == 7, 72057594037927936, 18446744073709551616))))))))
func syntax.writeUint(e, u, len) ()
opt safe=C05
case w0
set len := 0
case w1
set len := 1
case w2
set len := 2
case w3
set len := 3
case w4
set len := 4
case w5
set len := 5
case w6
set len := 6
case w7
set len := 7
case w8
set len := 8
let before = content(e.Buffer.buf)
ensures [C05] big-endian: content(e.Buffer.buf) == cat(before, be(u % pow(len), len))

func syntax.writeVarint(e, u) ()
opt safe=C05
let before = content(e.Buffer.buf)
ensures [C05] canonical: content(e.Buffer.buf) == cat(before, vbytes(u, vlen(u)))
ensures [C05] range: u < 4611686018427387904
panics [C05] only-too-big: u >= 4611686018427387904
panics [C05] nothing-written: content(e.Buffer.buf) == before

func syntax.decodeUintFromBuffer(buf) (v)
opt safe=C05
case w0
pre len(buf) == 0
case w1
pre len(buf) == 1
case w2
pre len(buf) == 2
case w3
pre len(buf) == 3
case w4
pre len(buf) == 4
case w5
pre len(buf) == 5
case w6
pre len(buf) == 6
case w7
pre len(buf) == 7
case w8
pre len(buf) == 8
ensures [C05] inverse: be(v, len(buf)) == content(buf)
ensures [C05] range: v < pow(len(buf))

func syntax.readVarint(d) (n, v)
opt safe=C05
case empty
pre len(d.Buffer.buf) == 0
case one
pre len(d.Buffer.buf) > 0 && d.Buffer.buf[0] / 64 == 0
case two
pre len(d.Buffer.buf) > 0 && d.Buffer.buf[0] / 64 == 1
case four
pre len(d.Buffer.buf) > 0 && d.Buffer.buf[0] / 64 == 2
case eight
pre len(d.Buffer.buf) > 0 && d.Buffer.buf[0] / 64 == 3
let before = content(d.Buffer.buf)
ensures [C05] length: len(before) >= 1 && n == vlenOf(before[0]) && n <= len(before)
ensures [C05] inverse: vbytes(v, n) == before[:n] && v < vmax(n)
ensures [C05] consumed: content(d.Buffer.buf) == before[n:]
panics [C05] only-truncated: len(before) == 0 || len(before) < vlenOf(before[0])

func syntax.encodeLength(e, n, opts) ()
opt safe=C05
pre 0 <= n
pre 0 <= opts.headerSize
pre 0 <= opts.minSize && 0 <= opts.maxSize
case none
set opts.omitHeader := true
case varint
set opts.varintHeader := true
set opts.omitHeader := false
case missing
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 0
case h1
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 1
case h2
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 2
case h3
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 3
case h4
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 4
case h7
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 7
case h8
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 8
let before = content(e.Buffer.buf)
let bounds = opts.minSize <= n && (opts.maxSize == 0 || n <= opts.maxSize)
let header = opts.omitHeader || opts.varintHeader || opts.headerSize > 0
let fits = opts.omitHeader || ite(opts.varintHeader, n < 4611686018427387904, n < pow(opts.headerSize))
ensures [C05] accepted-only-if: bounds && header && fits
ensures [C05] header: content(e.Buffer.buf) == cat(before, ite(opts.omitHeader, "", ite(opts.varintHeader, vbytes(n, vlen(n)), be(n, opts.headerSize))))
panics [C05] refused-only-if: !bounds || !header || !fits
panics [C05] nothing-written: content(e.Buffer.buf) == before

spec dl(opts) = ite(opts.omitHeader, 0, ite(opts.varintHeader, 1, opts.headerSize))
spec unbe(b, n) = ite(n == 0, 0, ite(n == 1, b[0], ite(n == 2, b[0]*256+b[1], ite(n == 3, b[0]*65536+b[1]*256+b[2], ite(n == 4, b[0]*16777216+b[1]*65536+b[2]*256+b[3], unbe56(b, n))))))
spec unbe56(b, n) = ite(n == 5, (b[0]*16777216+b[1]*65536+b[2]*256+b[3])*256+b[4], ite(n == 6, (b[0]*16777216+b[1]*65536+b[2]*256+b[3])*65536+b[4]*256+b[5], ite(n == 7, unbe7(b), unbe8(b))))
spec vval(b) = ite(b[0] < 64, b[0], ite(b[0] < 128, unbe(b, 2)-16384, ite(b[0] < 192, unbe(b, 4)-2147483648, unbe8(b)-13835058055282163712)))
spec unbe7(b) = b[0]*281474976710656+b[1]*1099511627776+b[2]*4294967296+b[3]*16777216+b[4]*65536+b[5]*256+b[6]
spec unbe8(b) = unbe7(b)*256+b[7]
func syntax.decodeLength(d, opts) (read, length)
opt safe=C05
pre 0 <= opts.headerSize
pre 0 <= opts.minSize && 0 <= opts.maxSize
case none
set opts.omitHeader := true
case varint-empty
set opts.varintHeader := true
set opts.omitHeader := false
pre len(d.Buffer.buf) == 0
case varint1
set opts.varintHeader := true
set opts.omitHeader := false
pre len(d.Buffer.buf) > 0 && d.Buffer.buf[0] / 64 == 0
case varint2
set opts.varintHeader := true
set opts.omitHeader := false
pre len(d.Buffer.buf) > 0 && d.Buffer.buf[0] / 64 == 1
case varint4
set opts.varintHeader := true
set opts.omitHeader := false
pre len(d.Buffer.buf) > 0 && d.Buffer.buf[0] / 64 == 2
case varint8
set opts.varintHeader := true
set opts.omitHeader := false
pre len(d.Buffer.buf) > 0 && d.Buffer.buf[0] / 64 == 3
case missing
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 0
case h1
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 1
case h2
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 2
case h3
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 3
case h4
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 4
case h5
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 5
case h6
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 6
case h7
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 7
case h8
set opts.varintHeader := false
set opts.omitHeader := false
set opts.headerSize := 8
let before = content(d.Buffer.buf)
ensures [C05] consumed: read <= len(before) && content(d.Buffer.buf) == before[read:]
ensures [C05] header: opts.omitHeader || opts.varintHeader || opts.headerSize > 0
ensures [C05] no-header: opts.omitHeader ==> read == 0 && length == len(before)
ensures [C05] varint: !opts.omitHeader && opts.varintHeader ==> read == vlenOf(before[0]) && vbytes(length, read) == before[:read]
ensures [C05] fixed: !opts.omitHeader && !opts.varintHeader ==> read == opts.headerSize && be(length, read) == before[:read]
ensures [C05] bounds: 0 <= length && opts.minSize <= length && (opts.maxSize == 0 || length <= opts.maxSize)
spec outside(opts, n) = n < opts.minSize || (opts.maxSize > 0 && n > opts.maxSize)
panics [C05] none-refused-only-if: opts.omitHeader ==> outside(opts, len(before))
panics [C05] varint-refused-only-if: !opts.omitHeader && opts.varintHeader ==> len(before) == 0 || len(before) < vlenOf(before[0]) || outside(opts, vval(before))
panics [C05] fixed-refused-only-if: !opts.omitHeader && !opts.varintHeader ==> opts.headerSize == 0 || len(before) < opts.headerSize || outside(opts, unbe(before, opts.headerSize)) || unbe(before, opts.headerSize) >= 9223372036854775808

func encodeUint(v, size, out) (rest)
opt safe=C05
pre size <= len(out)
case w0
set size := 0
case w1
set size := 1
case w2
set size := 2
case w3
set size := 3
case w4
set size := 4
case w5
set size := 5
case w6
set size := 6
case w7
set size := 7
case w8
set size := 8
let before = content(out)
ensures [C05] big-endian: content(out) == cat(be(v % pow(size), size), before[size:])
ensures [C05] rest: len(rest) == len(before) - size && content(rest) == before[size:] && size <= len(before)

func decodeUint(in, size) (v, rest)
opt safe=C05
pre size <= len(in)
case w0
set size := 0
case w1
set size := 1
case w2
set size := 2
case w3
set size := 3
case w4
set size := 4
case w5
set size := 5
case w6
set size := 6
case w7
set size := 7
case w8
set size := 8
ensures [C05] inverse: be(v, size) == content(in)[:size] && v < pow(size)
ensures [C05] rest: content(rest) == content(in)[size:] && same(in, old(in))
