# Assumed contracts of the standard library used in more than one package.
package stdlib

function lower(s string) string
function trimmed(s string) string
function splitN(s, sep string) int
function splitAt(s, sep string, i int) string
function indexOf(s, sep string) int
function lastIndexOf(s, sep string) int
function hasSuffix(s, suf string) bool
function hasPrefix(s, pre string) bool
function hasSub(s, sub string) bool
function isUint(s string, base, bits int) bool
function uintOf(s string, base int) int
function isInt(s string, base, bits int) bool
function intOf(s string, base int) int

extern strings.ToLower(s) (r)
  pure
  ensures r == lower(s)

extern strings.TrimSpace(s) (r)
  pure
  ensures r == trimmed(s)

extern strings.Split(s, sep) (r)
  modifies
  ensures fresh(r) && len(r) == splitN(s, sep) && (forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == splitAt(s, sep, i))

extern strings.Index(s, sep) (i)
  pure
  ensures i == indexOf(s, sep) && 0 - 1 <= i && (i >= 0 ==> i + len(sep) <= len(s))

extern strings.LastIndex(s, sep) (i)
  pure
  ensures i == lastIndexOf(s, sep) && 0 - 1 <= i && (i >= 0 ==> i + len(sep) <= len(s))

extern strings.HasSuffix(s, suf) (r)
  pure
  ensures r == hasSuffix(s, suf) && (r ==> len(suf) <= len(s))

extern strings.HasPrefix(s, pre) (r)
  pure
  ensures r == hasPrefix(s, pre) && (r ==> len(pre) <= len(s))

extern strings.Contains(s, sub) (r)
  pure
  ensures r == hasSub(s, sub)

extern strconv.ParseUint(s, base, bits) (v, err)
  modifies
  ensures (err == nil <==> isUint(s, base, bits)) && (err == nil ==> v == uintOf(s, base))
  ensures (bits == 54 && err == nil ==> v < 18014398509481984) && (bits == 63 && err == nil ==> v < 9223372036854775808)

extern strconv.ParseInt(s, base, bits) (v, err)
  modifies
  ensures (err == nil <==> isInt(s, base, bits)) && (err == nil ==> v == intOf(s, base))

extern time.Now() (t)
  modifies

extern log.Printf(f, v)
  modifies
extern log.Print(v)
  modifies
extern log.Panicf(f, v)
  requires [unreachable] false
  noreturn
extern fmt.Errorf(f, a) (err)
  modifies
  ensures err != nil
extern errors.New(s) (err)
  modifies
  ensures err != nil
extern fmt.Sprintf(f, a) (s)
  modifies
  ensures s == sprintf(f, a)

# what has been written to a buffer
ghostvar $buf map[ref]string zeroinit bytes.Buffer,strings.Builder aux=client,ansi,vcs

extern bytes.(*Buffer).WriteString(b, s) (n, err)
  requires b != nil
  modifies $buf
  ensures $buf == upd(old($buf), b, old($buf)[b] + s) && n == len(s) && err == nil
extern bytes.(*Buffer).Write(b, s) (n, err)
  requires b != nil
  modifies $buf
  ensures $buf == upd(old($buf), b, old($buf)[b] + str(s)) && n == len(s) && err == nil
extern bytes.(*Buffer).WriteByte(b, c) (err)
  requires b != nil
  modifies $buf
  ensures $buf == upd(old($buf), b, old($buf)[b] + chr(c)) && err == nil
extern bytes.(*Buffer).String(b) (s)
  requires b != nil
  modifies
  ensures s == $buf[b]
extern bytes.(*Buffer).Reset(b)
  requires b != nil
  modifies $buf
  ensures $buf == upd(old($buf), b, "")
extern bytes.(*Buffer).Len(b) (n)
  requires b != nil
  modifies
  ensures n == len($buf[b])

extern strings.(*Builder).WriteString(b, s) (n, err)
  requires b != nil
  modifies $buf
  ensures $buf == upd(old($buf), b, old($buf)[b] + s) && n == len(s) && err == nil
extern strings.(*Builder).Write(b, s) (n, err)
  requires b != nil
  modifies $buf
  ensures $buf == upd(old($buf), b, old($buf)[b] + str(s)) && n == len(s) && err == nil
extern strings.(*Builder).WriteByte(b, c) (err)
  requires b != nil
  modifies $buf
  ensures $buf == upd(old($buf), b, old($buf)[b] + chr(c)) && err == nil
extern strings.(*Builder).String(b) (s)
  requires b != nil
  modifies
  ensures s == $buf[b]
extern strings.(*Builder).Reset(b)
  requires b != nil
  modifies $buf
  ensures $buf == upd(old($buf), b, "")
extern strings.(*Builder).Len(b) (n)
  requires b != nil
  modifies
  ensures n == len($buf[b])

# the one-byte string
function chr(c int) string
axiom chr_def global: forall c int :: {chr(c)} len(chr(c)) == 1 && (0 <= c && c < 256 ==> chr(c)[0] == c)
extern bytes.NewBuffer(p) (b)
  modifies $buf
  ensures fresh(b) && b != nil && $buf == upd(old($buf), b, str(p))
extern log.Panic(v)
  noreturn

function fiName(fi io/fs.FileInfo) string
function fiMode(fi io/fs.FileInfo) int
extern io/fs.FileInfo.Name(fi) (s)
  pure
  ensures s == fiName(fi) && len(s) > 0
extern io/fs.FileInfo.Mode(fi) (m)
  pure
  ensures m == fiMode(fi) && 0 <= m && m < 4294967296
extern io/fs.FileInfo.IsDir(fi) (r)
  pure
  ensures r <==> fiMode(fi) & 2147483648 != 0
