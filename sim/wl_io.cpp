// Matrix files: round trips and reading/writing under I/O faults.
#include "wl_elim.h"
#include <fflas-ffpack/utils/fflas_io.h>
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace FFLAS;
typedef FIELD F;
#define BAD(...) sim::violation("wrong-result", __VA_ARGS__)
namespace {
std::string slurp(const std::string& path) { std::ifstream i(path, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
void spit(const std::string& path, const std::string& t) { std::ofstream o(path, std::ios::binary); o << t; }
// what the bytes of a matrix file mean: 1 = a complete matrix, 0 = not one
struct Parsed { int ok = 0; ref::M a; };
bool num(std::istringstream& s, long long& v) { std::string w; if (!(s >> w)) return false; char* e; v = strtoll(w.c_str(), &e, 10); return !*e && e != w.c_str(); }
Parsed parse(const std::string& t, FFLAS_FORMAT fmt, i64 p) {
    Parsed r; long long m, n, x;
    if (fmt == FflasBinary) {
        if (t.size() < 25 || t.compare(0, 9, "FFBinFmt\n")) return r;
        size_t mm, nn; memcpy(&mm, t.data() + 9, 8); memcpy(&nn, t.data() + 17, 8);
        if (mm > 5000 || nn > 5000 || t.size() < 25 + mm * nn * sizeof(F::Element)) return r;
        r.a = ref::M(mm, nn);
        for (size_t i = 0; i < mm * nn; ++i) { F::Element e; memcpy(&e, t.data() + 25 + i * sizeof e, sizeof e); r.a.a[i] = ref::mod((ref::i128)(int64_t)e, p); }
        r.ok = 1; return r;
    }
    std::string u = t;
    if (fmt == FflasSMS) while (!u.empty() && u[0] == '%') { size_t q = u.find('\n'); u = q == std::string::npos ? "" : u.substr(q + 1); }
    std::istringstream s(u);
    if (!num(s, m) || !num(s, n) || m < 0 || n < 0 || m > 5000 || n > 5000) return r;
    r.a = ref::M((size_t)m, (size_t)n);
    if (fmt == FflasDense) { for (auto& e : r.a.a) { if (!num(s, x)) return r; e = ref::mod((ref::i128)x, p); } r.ok = 1; return r; }
    std::string tag; if (!(s >> tag)) return r;
    for (;;) {
        long long i, j;
        if (!num(s, i) || !num(s, j) || i < 0 || j < 0 || i > m || j > n) return r;
        if (!num(s, x)) return r;
        i64 v = ref::mod((ref::i128)x, p);
        if (!i && !j && !v) break;
        if (!i || !j) return r;
        r.a((size_t)i - 1, (size_t)j - 1) = v;
    }
    r.ok = 1; return r;
}
std::string fstr(int f) { return f == FflasDense ? "dense" : f == FflasSMS ? "SMS" : "binary"; }
}
WORKLOADF(matio) {
    sim::enter("seq");
    F f = make_field<F>(); i64 p = charac(f);
    size_t m = (size_t)Psize("m", 0, 14), n = (size_t)Psize("n", 0, 14);
    bool cm = Pbool("colmajor", 30);
    ref::M a = rnd(m, n, p, Pseed("A"), (int)Pick("zeros", {0, 50, 95}));
    Mat<F> A(f, cm ? n : m, cm ? m : n, "A"); A.set(cm ? ref::transpose(a) : a); A.snapshot();
    FFLAS_FORMAT fmt = (FFLAS_FORMAT)P("fmt", 1, 3);
    bool autod = fmt != FflasDense && Pbool("auto"), wstream = Pbool("wstream", 30), rstream = Pbool("rstream", 30);
    std::string path = sim::scratch("m.txt");
    int mode = (int)P("mode", 0, 5); // 0,1: no destructive fault 2: torn file 3: failing write 4: failing read 5: malformed content
    // ---- write
    sim::IO = sim::IoPlan();
    sim::IO.active = true;
    sim::IO.short_write_pct = (int)Pick("io.sw", {0, 30, 90}); sim::IO.short_read_pct = (int)Pick("io.sr", {0, 30, 90}); sim::IO.eintr_pct = (int)Pick("io.eintr", {0, 10, 40});
    if (mode == 3) { sim::IO.fail_write_at = Psize("io.wat", 0, 400); sim::IO.err = Pbool("io.full") ? 28 : 5; if (Pbool("io.wopen", 10)) sim::IO.fail_open_at = 0; }
    std::ostringstream err; std::streambuf* old = std::cerr.rdbuf(err.rdbuf());
    bool wfail = false;
    ::unlink(path.c_str());
    {
        sim::Section s;
        if (wstream) { std::ofstream o(path, std::ios::out | std::ios::binary); WriteMatrix(o, f, m, n, A.p, A.ld, fmt, cm); o.close(); wfail = !o; }
        else { std::string ps = path; WriteMatrix(ps, f, (int)m, (int)n, A.p, A.ld, fmt, cm); wfail = !err.str().empty(); }
    }
    bool wfired = sim::IO.fired;
    sim::IO.active = false;
    A.unchanged("WriteMatrix A");
    if (wfired && !wfail) BAD("WriteMatrix (%s format, %s): a write error is not reported", fstr(fmt).c_str(), wstream ? "stream" : "file name");
    if (!wfired && wfail) BAD("WriteMatrix (%s format): failure reported although every write succeeded: %s", fstr(fmt).c_str(), err.str().c_str());
    std::string text = slurp(path);
    bool exists = ::access(path.c_str(), 0) == 0;
    if (!wfired) { Parsed q = parse(text, fmt, p); if (!q.ok || !(q.a == a)) BAD("WriteMatrix (%s format, column major %d, leading dimension %zu): the file does not describe the %zux%zu matrix mod %lld (%s)", fstr(fmt).c_str(), (int)cm, A.ld, m, n, p, q.ok ? ref::diff(q.a, a).c_str() : text.substr(0, 60).c_str()); }
    // ---- damage
    if (mode == 2) { size_t k = (size_t)P("torn", 0, (long)text.size()); if (k < text.size()) { text.resize(k); spit(path, text); sim::fault("torn_file"); } }
    if (mode == 5) {
        sim::Rng r(Pseed("mal"));
        if (fmt == FflasSMS && m && n) { // an entry out of range, comments, unordered or missing terminator
            int w = (int)r.below(6); size_t nl = text.find('\n') + 1; char b[80];
            if (w == 0) snprintf(b, sizeof b, "%zu %zu 1\n", m + 1 + (size_t)r.below(3), 1 + (size_t)r.below(n));
            else if (w == 1) snprintf(b, sizeof b, "%zu %zu 1\n", 1 + (size_t)r.below(m), n + 1 + (size_t)r.below(3));
            else if (w == 2) snprintf(b, sizeof b, "%zu 0 1\n", 1 + (size_t)r.below(m));
            else if (w == 3) snprintf(b, sizeof b, "0 %zu 1\n", 1 + (size_t)r.below(n));
            else if (w == 4) snprintf(b, sizeof b, "1 x 1\n");
            else b[0] = 0;
            text.insert(nl, b);
            if (w == 5) text = "% a comment\n%another 0 0 0\n" + text;
        } else if (fmt == FflasBinary) { if (r.below(2)) text[(size_t)r.below(8)] ^= 1; else text = text.substr(0, (size_t)r.below(9)); }
        else if (!text.empty()) { // one of the words is not a number
            std::vector<size_t> st; for (size_t i = 0; i < text.size(); ++i) if (!isspace((unsigned char)text[i]) && (!i || isspace((unsigned char)text[i - 1]))) st.push_back(i);
            size_t b = st[(size_t)r.below(st.size())], e = b; while (e < text.size() && !isspace((unsigned char)text[e])) ++e;
            text.replace(b, e - b, "x");
        }
        spit(path, text); sim::fault("malformed_file");
    }
    // ---- read
    sim::IO.active = true; sim::IO.fired = false; sim::IO.fail_write_at = -1; sim::IO.fail_open_at = -1; sim::IO.rbytes = 0; sim::IO.opens = 0;
    if (mode == 4) { sim::IO.fail_read_at = P("io.rat", 0, (long)text.size()); sim::IO.err = 5; if (Pbool("io.ropen", 10)) sim::IO.fail_open_at = 0; }
    err.str("");
    F g(f); size_t rm = 7777, rn = 8888; F::Element_ptr B = (F::Element_ptr)0; F::Element_ptr ret = 0; bool thrown = false;
    {
        sim::Section s;
        try {
            if (rstream) { std::ifstream i(path, std::ios::in | std::ios::binary); ret = ReadMatrix(i, g, rm, rn, B, autod ? FflasAuto : fmt); }
            else ret = ReadMatrix(path, g, rm, rn, B, autod ? FflasAuto : fmt);
        } catch (std::exception&) { thrown = true; } catch (Givaro::GivError&) { thrown = true; }
    }
    bool rfired = sim::IO.fired;
    sim::IO.active = false;
    std::cerr.rdbuf(old);
    Parsed q; if (exists) q = parse(text, fmt, p);
    if (autod && fmt == FflasBinary && text.compare(0, 8, "FFBinFmt")) q.ok = 0;
    bool got = ret != 0 && !thrown;
    if (!thrown && ret != B) BAD("ReadMatrix (%s format): returns %p but sets the matrix to %p", fstr(fmt).c_str(), (void*)ret, (void*)B);
    if (got && rfired && rm * rn) { // a read error: only acceptable when everything had been read before it
        if (!(q.ok && q.a.m == rm && q.a.n == rn)) BAD("ReadMatrix (%s format): returns a matrix although reading the file failed", fstr(fmt).c_str());
    }
    if (got && !q.ok) BAD("ReadMatrix (%s format): returns a %zux%zu matrix for a file that is truncated or malformed (%zu bytes: %s)", fstr(fmt).c_str(), rm, rn, text.size(), text.substr(0, 60).c_str());
    if (!got && q.ok && !rfired) BAD("ReadMatrix (%s format%s): fails on a well-formed file of a %zux%zu matrix: %s", fstr(fmt).c_str(), autod ? ", automatic detection" : "", q.a.m, q.a.n, err.str().c_str());
    if (!got && err.str().empty() && !thrown) BAD("ReadMatrix (%s format): no matrix returned and nothing reported", fstr(fmt).c_str());
    if (got) {
        if (rm != q.a.m || rn != q.a.n) BAD("ReadMatrix (%s format): dimensions %zux%zu, the file says %zux%zu", fstr(fmt).c_str(), rm, rn, q.a.m, q.a.n);
        ref::M b(rm, rn); for (size_t i = 0; i < rm * rn; ++i) b.a[i] = get(f, B[i], "matrix read");
        if (!(b == q.a)) BAD("ReadMatrix (%s format, mod %lld): %s", fstr(fmt).c_str(), p, ref::diff(b, q.a).c_str());
        sim::observe(ref::hash(b));
    }
    { sim::Section s; if (B) fflas_delete(B); }
    sim::observe((uint64_t)got);
    ::unlink(path.c_str());
}
// human-readable formats
WORKLOADF(matprint) {
    sim::enter("seq");
    F f = make_field<F>(); i64 p = charac(f);
    size_t m = (size_t)Psize("m", 0, 12), n = (size_t)Psize("n", 0, 12);
    bool cm = Pbool("colmajor", 30);
    ref::M a = rnd(m, n, p, Pseed("A"), (int)Pick("zeros", {0, 50, 95}));
    Mat<F> A(f, cm ? n : m, cm ? m : n, "A"); A.set(cm ? ref::transpose(a) : a); A.snapshot();
    FFLAS_FORMAT fmt = (FFLAS_FORMAT)P("fmt", 4, 6);
    std::string t;
    { sim::Section s; std::ostringstream o; WriteMatrix(o, f, m, n, A.p, A.ld, fmt, cm); t = o.str(); }
    A.unchanged("WriteMatrix A");
    std::string body = t;
    if (fmt != FflasMath) {
        char h[100]; snprintf(h, sizeof h, "Matrix (%s%zu, %zu, [", "", m, n);
        size_t q = t.find('[');
        if (q == std::string::npos || t.find(']') == std::string::npos) BAD("WriteMatrix: malformed output %s", t.substr(0, 80).c_str());
        std::string dims = std::to_string(m) + ", " + std::to_string(n) + ", ";
        if (t.compare(0, 8, "Matrix (") || q < dims.size() || t.compare(q - dims.size(), dims.size(), dims)) BAD("WriteMatrix: header %s for a %zux%zu matrix", t.substr(0, q).c_str(), m, n);
        body = t.substr(q);
        size_t open = 0, close = 0; for (char c : body) { open += c == '['; close += c == ']'; }
        if (open != m + 1 || close != m + 1) BAD("WriteMatrix: %zu rows printed for a %zux%zu matrix", open - 1, m, n);
    } else { size_t lines = 0; for (char c : body) lines += c == '\n'; if (lines != m) BAD("WriteMatrix: %zu lines printed for a %zux%zu matrix", lines, m, n); }
    for (char& c : body) if (c == '[' || c == ']' || c == ',' || c == ')' || c == ';') c = ' ';
    std::istringstream s(body); std::vector<i64> v; long long x; while (num(s, x)) v.push_back(ref::mod((ref::i128)x, p));
    if (v != a.a) { size_t k = 0; while (k < v.size() && k < a.a.size() && v[k] == a.a[k]) ++k; BAD("WriteMatrix format %d column major %d leading dimension %zu: %zu numbers printed for a %zux%zu matrix mod %lld, entry %zu differs", (int)fmt, (int)cm, A.ld, v.size(), m, n, p, k); }
    sim::observe(ref::hash(a));
}
// sparse matrix files
WORKLOADF(spio) {
    sim::enter("seq");
    F f = make_field<F>(); i64 p = charac(f);
    size_t m = (size_t)Psize("m", 1, 14), n = (size_t)Psize("n", 1, 14);
    sim::Rng r(Pseed("S"));
    int dens = (int)Pick("dens", {3, 20, 60});
    bool sms = Pbool("sms"), sorted = Pbool("sorted"), zeros = Pbool("zeros", 30);
    struct T { size_t i, j; long long v; };
    std::vector<T> es; ref::M a(m, n);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if ((int)r.below(100) < dens) {
        long long v = (long long)r.below(2000000) - 1000000; if (!v) v = 1;
        if (zeros && r.below(3) == 0) v = p < 100000 ? p * (long long)(1 + r.below(5)) : (sms ? p : 0);
        es.push_back({i, j, v}); a(i, j) = ref::mod((ref::i128)v, p);
    }
    if (es.empty()) { es.push_back({m - 1, 0, 1}); a(m - 1, 0) = 1; }
    if (!sorted) for (size_t k = es.size(); k > 1; --k) std::swap(es[k - 1], es[r.below(k)]);
    std::ostringstream o;
    if (Pbool("comments", 30)) o << "% comment 1 1 1\n\n%x\n";
    o << m << ' ' << n << ' ' << (sms ? std::string("M") : std::to_string(es.size())) << '\n';
    for (auto& e : es) { o << e.i + 1 << ' ' << e.j + 1 << ' ' << e.v << '\n'; if (r.below(20) == 0) o << '\n'; }
    if (sms) o << "0 0 0\n";
    std::string text = o.str();
    bool whole = true;
    int mode = (int)P("mode", 0, 4); // 0,1 intact 2 no final newline 3 torn 4 out of range
    while (mode == 2 && text.size() > 1 && text.back() == '\n') text.pop_back();
    if (mode == 3) { size_t k = (size_t)P("torn", 0, (long)text.size()); size_t last = text.size(); while (last && (text[last - 1] == '\n' )) --last; whole = k >= last; text.resize(k); sim::fault("torn_file"); }
    if (mode == 4) { size_t w = text.find(sms ? " M\n" : (" " + std::to_string(es.size()) + "\n")); w = text.find('\n', w) + 1; const char* b[] = {"0 1 1\n", "1 0 1\n"}; std::string e = r.below(2) ? b[r.below(2)] : r.below(2) ? std::to_string(m + 1 + r.below(9)) + " 1 1\n" : "1 " + std::to_string(n + 1) + " 1\n"; text.insert(w, e); whole = false; sim::fault("malformed_file"); }
    std::string path = sim::scratch("s.sms");
    spit(path, text);
    bool missing = Pbool("missing", 3); if (missing) { ::unlink(path.c_str()); whole = false; }
    sim::IO = sim::IoPlan(); sim::IO.active = true; sim::IO.short_read_pct = (int)Pick("io.sr", {0, 30, 90}); sim::IO.eintr_pct = (int)Pick("io.eintr", {0, 10, 40});
    index_t *row = 0, *col = 0; F::Element_ptr val = 0; index_t rd = 0, cd = 0; uint64_t nnz = 0;
    if (!whole) sim::expect_exit(true);
    { sim::Section s; if (sorted) readSmsFormat<F, true>(path, f, row, col, val, rd, cd, nnz); else readSmsFormat<F, false>(path, f, row, col, val, rd, cd, nnz); }
    sim::expect_exit(false);
    sim::IO.active = false;
    if (!whole && mode == 3) { // a torn last line may still read as a shorter number
        std::istringstream q(text); std::string l; size_t lines = 0; bool head = false; while (std::getline(q, l)) { if (l.empty() || l[0] == '%') continue; if (!head) { head = true; continue; } ++lines; }
        if (sms || lines < es.size()) BAD("readSmsFormat: returns a matrix for a truncated file (%zu of %zu entries)", lines, es.size());
    } else if (!whole) BAD("readSmsFormat: returns a matrix for a %s file", missing ? "missing" : "malformed");
    else {
        if (rd != m || cd != n) BAD("readSmsFormat: dimensions %zux%zu, the file says %zux%zu", (size_t)rd, (size_t)cd, m, n);
        ref::M g(m, n);
        if (row[0] != 0 || row[m] != nnz) BAD("readSmsFormat: row pointers from %zu to %zu for %zu entries", (size_t)row[0], (size_t)row[m], (size_t)nnz);
        for (size_t i = 0; i < m; ++i) for (size_t k = row[i]; k < row[i + 1]; ++k) {
            if (k >= nnz || col[k] >= n) BAD("readSmsFormat: row %zu refers to entry %zu of %zu", i, k, (size_t)nnz);
            if (g(i, col[k])) BAD("readSmsFormat: entry (%zu,%zu) stored twice", i, (size_t)col[k]);
            g(i, col[k]) = get(f, val[k], "sparse entry");
        }
        if (!(g == a)) BAD("readSmsFormat mod %lld: %s", p, ref::diff(g, a).c_str());
        sim::observe(ref::hash(g));
    }
    { sim::Section s; fflas_delete(row); fflas_delete(col); fflas_delete(val); }
    ::unlink(path.c_str());
}
