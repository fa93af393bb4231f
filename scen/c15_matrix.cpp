// C15: matrices saved to and loaded from files after any operations, with faults, kills and damage.
#include "Hamiltonianmatrix.hpp"
#include "scen/util.hpp"
#include <complex>
#include <cstring>
#include <map>
#include <memory>

using namespace sim;
namespace {
typedef std::complex<double> cd;
struct Snap { // what a matrix holds, as dense arrays
    bool cplx = false;
    long er = 0, ec = 0, br = 0, bc = 0;
    std::vector<cd> e, b;
    bool operator==(Snap const &o) const {
        auto eq = [](const std::vector<cd> &x, const std::vector<cd> &y) { return x.size() == y.size() && (x.empty() || memcmp(x.data(), y.data(), x.size() * sizeof(cd)) == 0); };
        return cplx == o.cplx && er == o.er && ec == o.ec && br == o.br && bc == o.bc && eq(e, o.e) && eq(b, o.b);
    }
};
template <class S>
void structure(const Eigen::SparseMatrix<S> &m, const char *what) {
    const int *outer = m.outerIndexPtr();
    if (!m.isCompressed()) return;
    for (long c = 0; c < m.cols(); c++)
        if (outer[c] > outer[c + 1] || outer[c] < 0 || outer[c + 1] > m.data().size()) violation("broken-object", "%s has a broken column index after a load", what);
    for (long i = 0; i < (m.cols() ? outer[m.cols()] : 0); i++)
        if (m.innerIndexPtr()[i] < 0 || m.innerIndexPtr()[i] >= m.rows()) violation("broken-object", "%s has a row index outside the matrix after a load", what);
}
template <class S>
std::vector<cd> dense(const Eigen::SparseMatrix<S> &m) {
    std::vector<cd> v(size_t(m.rows() * m.cols()), cd(0));
    for (int k = 0; k < m.outerSize(); k++)
        for (typename Eigen::SparseMatrix<S>::InnerIterator it(m, k); it; ++it) v[size_t(it.col() * m.rows() + it.row())] = it.value();
    return v;
}
template <class S>
Snap snap(const Hamiltonianmatrix<S> &m) {
    Snap s;
    s.cplx = utils::is_complex<S>::value;
    s.er = m.entries().rows();
    s.ec = m.entries().cols();
    s.br = m.basis().rows();
    s.bc = m.basis().cols();
    structure(m.entries(), "entries");
    structure(m.basis(), "basis");
    s.e = dense(m.entries());
    s.b = dense(m.basis());
    return s;
}
std::string diff(const Snap &a, const Snap &b) {
    char t[400];
    if (a.er != b.er || a.ec != b.ec || a.br != b.br || a.bc != b.bc) {
        snprintf(t, sizeof t, "entries %ldx%ld, basis %ldx%ld instead of entries %ldx%ld, basis %ldx%ld", a.er, a.ec, a.br, a.bc, b.er, b.ec, b.br, b.bc);
        return t;
    }
    for (size_t i = 0; i < a.e.size(); i++)
        if (memcmp(&a.e[i], &b.e[i], sizeof(cd))) {
            snprintf(t, sizeof t, "entry (%ld,%ld) of a %ldx%ld matrix is (%.17g,%.17g) instead of (%.17g,%.17g)", long(i) % a.er, long(i) / a.er, a.er, a.ec, a.e[i].real(), a.e[i].imag(),
                     b.e[i].real(), b.e[i].imag());
            return t;
        }
    for (size_t i = 0; i < a.b.size(); i++)
        if (memcmp(&a.b[i], &b.b[i], sizeof(cd))) {
            snprintf(t, sizeof t, "basis element (%ld,%ld) of %ldx%ld is (%.17g,%.17g) instead of (%.17g,%.17g)", long(i) % a.br, long(i) / a.br, a.br, a.bc, a.b[i].real(), a.b[i].imag(),
                     b.b[i].real(), b.b[i].imag());
            return t;
        }
    return "no difference";
}
struct FileState {
    bool certain = true, exists = false, damaged = false, flipped = false;
    Snap content;
    std::vector<Snap> possible;
};
std::map<std::string, FileState> *F;
double val(uint64_t n) {
    static const double t[] = {1, -1, 0.5, 0.1, 1.0 / 3, 1e-300, -1e300, 0, -0.0, 4.9e-324, 2.2250738585072014e-308, 1 + 2.220446049250313e-16, 123456789.123};
    return n % 3 ? (Rng(n).unit() - 0.5) * 10 : t[n / 3 % 13];
}
void put(double &d, uint64_t n) { d = val(n); }
void put(cd &d, uint64_t n) { d = cd(val(n), n % 5 == 1 ? 0 : val(n * 7 + 1)); }

template <class S>
struct Obj {
    Hamiltonianmatrix<S> m;
};
template <class S>
void op_on(Obj<S> *o, int i, int j, const std::vector<std::string> &a, const std::string &op) {
    auto &M = o[i].m;
    auto I = [&](size_t k) { return k < a.size() ? atoi(a[k].c_str()) : 0; };
    auto P = [&](int k) { return "/sim/work/matrix" + std::to_string(k % 4) + ".mat"; };
    uint64_t f0 = fault_count();
    Rng r(uint64_t(I(6)) * 77 + 5);
    const auto &K = M; // the other accessors drop the bytes
    if (a[0] == "new" || a[0] == "again") { // (re)build from triplets
        int nb = I(2), nc = I(3), fill = I(4), shape = I(5);
        if (a[0] == "new") M = Hamiltonianmatrix<S>(size_t(nb), size_t(nb));
        if (a[0] == "again" && shape % 2) {
            nb = M.num_basisvectors();
            nc = M.num_coordinates();
        }
        auto filled = [&](int row, int col, int cols) {
            switch (shape % 6) {
            case 0: return int(r.below(10)) < fill;
            case 1: return row == col;
            case 2: return col == cols - 1 && int(r.below(10)) < fill + 3; // leading columns empty
            case 3: return col == 0;                                     // trailing columns empty
            case 4: return false;
            default: return col % 3 == 1 && int(r.below(10)) < fill;
            }
        };
        for (int c = 0; c < nb; c++) {
            for (int w = 0; w < nc; w++)
                if (filled(w, c, nb)) {
                    S v;
                    put(v, r.next() >> 8);
                    M.addBasis(w, c, v);
                }
            for (int w = 0; w < nb; w++)
                if (filled(w, c, nb)) {
                    S v;
                    put(v, r.next() >> 8);
                    M.addEntries(w, c, v);
                    if (r.chance(0.1)) M.addEntries(w, c, v);
                }
        }
        M.compress(nb, nc);
    } else if (a[0] == "diag") { // physically shaped: diagonal energies, unit basis
        int n = I(2);
        M = Hamiltonianmatrix<S>(size_t(n), size_t(n));
        for (int k = 0; k < n; k++) {
            M.addBasis(k, k, 1);
            M.addEntries(k, k, (r.unit() - 0.5) * 4);
            if (k && r.chance(0.5)) {
                S v;
                put(v, 3 * r.below(3000) + 1);
                M.addEntries(k, k - 1, v);
                M.addEntries(k - 1, k, utils::conjugate(v));
            }
        }
        M.compress(n, n);
    } else if (a[0] == "edit") {
        S v;
        put(v, I(4));
        if (M.num_basisvectors() && M.num_coordinates()) {
            M.entries().coeffRef(I(2) % K.entries().rows(), I(3) % K.entries().cols()) = v;
            if (I(5) % 2) M.basis().coeffRef(I(3) % K.basis().rows(), I(2) % K.basis().cols()) = v;
        }
    } else if (a[0] == "add" || a[0] == "sub") {
        const auto &N = o[j].m;
        if (K.entries().rows() != N.entries().rows() || K.entries().cols() != N.entries().cols()) return;
        bool in = I(4) % 2;
        if (a[0] == "add")
            in ? void(M += N) : void(M = M + N);
        else
            in ? void(M -= N) : void(M = M - N);
    } else if (a[0] == "scale") {
        double f = val(I(3));
        if (I(4) % 2)
            M = f * M;
        else
            M = M * f;
    } else if (a[0] == "abs") {
        M = M.abs();
    } else if (a[0] == "cutoff") {
        if (K.entries().rows() == K.entries().cols() && M.num_basisvectors() == size_t(K.entries().cols())) M.applyCutoff(0.5 + I(3) * 0.25);
    } else if (a[0] == "prune") {
        if (M.num_basisvectors() != size_t(K.entries().cols())) return;
        std::vector<bool> nec(M.num_coordinates());
        for (size_t k = 0; k < nec.size(); k++) nec[k] = r.chance(0.6);
        if (I(3) % 4 == 0)
            M.removeUnnecessaryBasisvectors();
        else if (I(3) % 4 == 1)
            M.removeUnnecessaryBasisvectors(nec);
        else if (I(3) % 4 == 2)
            M.removeUnnecessaryStates(nec);
        else
            M.findUnnecessaryStates(nec);
    } else if (a[0] == "block") {
        if (M.num_basisvectors() != size_t(K.entries().cols())) return;
        std::vector<ptrdiff_t> idx;
        for (size_t k = 0; k < M.num_basisvectors(); k++)
            if (r.chance(0.6)) idx.push_back(k);
        o[j].m = M.getBlock(idx);
    } else if (a[0] == "basis") {
        const auto &N = o[j].m;
        if (K.basis().rows() == N.basis().rows() && K.basis().cols() == K.entries().cols() && i != j) M = M.changeBasis(N.basis());
    } else if (a[0] == "solve") {
        if (K.basis().rows() > 0 && K.entries().rows() == K.entries().cols() && K.basis().cols() == K.entries().cols()) {
            bool finite = true;
            for (auto &v : dense(K.entries())) finite &= std::abs(v) < 1e6;
            if (!finite) return;
            if (!K.entries().isCompressed()) M.entries().makeCompressed();
            if (!K.basis().isCompressed()) M.basis().makeCompressed();
            M.diagonalize();
        }
    } else if (a[0] == "hash") {
        I(3) % 2 ? M.hashEntries() : M.hashBasis();
    } else if (a[0] == "copy") {
        o[j].m = M;
    } else if (a[0] == "bytes") { // through a byte buffer
        bytes_t b = M.serialize();
        Snap want = snap(M);
        Hamiltonianmatrix<S> n;
        n.deserialize(b);
        Snap got = snap(n);
        if (!(got == want)) violation("changed-by-serialisation", "%s: %s", op.c_str(), diff(got, want).c_str());
        o[j].m = n;
        probe("byte_round_trips");
    } else if (a[0] == "save") {
        std::string path = P(I(3));
        auto &f = (*F)[path];
        Snap now = snap(M);
        if (f.certain) {
            f.possible.clear();
            if (f.exists && !f.damaged && !f.flipped) f.possible.push_back(f.content);
        }
        f.certain = false;
        f.possible.push_back(now);
        bool ok = true;
        std::string what;
        try {
            --quiet_level();
            M.save(path);
            ++quiet_level();
        } catch (std::exception &e) {
            ++quiet_level();
            ok = false;
            what = e.what();
        }
        log("save %d -> %s %s", i, ok ? "ok" : "error", what.c_str());
        if (!(snap(M) == now)) violation("changed-by-save", "saving changed the matrix: %s", diff(snap(M), now).c_str());
        if (ok) {
            f.certain = f.exists = true;
            f.damaged = f.flipped = false;
            f.content = now;
            probe("saves_ok");
        } else {
            if (fault_count() == f0) violation("spurious-error", "saving failed without a fault: %s", what.c_str());
            probe("saves_failed");
        }
    } else if (a[0] == "load") {
        std::string path = P(I(3));
        auto &f = (*F)[path];
        Snap before = snap(M);
        int open0 = fs_open_files(self_pid());
        bool ok = false, thrown = false;
        std::string what;
        try {
            --quiet_level();
            ok = M.load(path);
            ++quiet_level();
        } catch (std::exception &e) {
            ++quiet_level();
            thrown = true;
            what = e.what();
        }
        bool faulted = fault_count() != f0;
        log("load %d -> %s %s", i, ok ? "ok" : "refused", what.c_str());
        if (fs_open_files(self_pid()) != open0) violation("file-left-open", "%s left the file open", op.c_str());
        if (ok && f.flipped) { // no checksum in the format: what was read is unknown (its size too), but it has to be sound
            structure(M.entries(), "entries read from an overwritten file");
            structure(M.basis(), "basis read from an overwritten file");
            M = Hamiltonianmatrix<S>();
            probe("overwritten_files_read");
            return;
        }
        Snap got = snap(M);
        bool kind = f.content.cplx == utils::is_complex<S>::value;
        if (!ok) {
            if (thrown) probe("loads_thrown");
            if (!(got == before)) violation("changed-by-failed-load", "a refused load changed the matrix: %s", diff(got, before).c_str());
            if (f.certain && f.exists && !f.damaged && !f.flipped && kind && !faulted) violation("spurious-error", "loading a good file failed %s", what.c_str());
            probe(faulted ? "loads_failed_by_fault" : "loads_refused");
            return;
        }
        if (f.certain) {
            if (!f.exists) violation("error-not-reported", "loading a missing file succeeded");
            if (f.damaged) violation("error-not-reported", "loading a damaged file succeeded");
            if (!kind) violation("error-not-reported", "loading a %s file into a %s matrix succeeded", f.content.cplx ? "complex" : "real", f.content.cplx ? "real" : "complex");
            if (!(got == f.content)) violation("wrong-content", "loaded matrix: %s", diff(got, f.content).c_str());
        } else {
            bool any = false;
            for (auto &c : f.possible) any |= c == got;
            if (!any) violation("half-written-file-accepted", "after an interrupted save the file was read as a matrix that was never saved (entries %ldx%ld)", got.er, got.ec);
        }
        probe("loads_ok");
    }
}
struct World {
    Obj<double> d[2];
    Obj<cd> c[2];
};
void run_op(World &w, const std::string &op) {
    Quiet q;
    auto a = words(op);
    auto I = [&](size_t i) { return i < a.size() ? atoi(a[i].c_str()) : 0; };
    if (a[0] == "damage") {
        std::string p = "/sim/work/matrix" + std::to_string(I(1) % 4) + ".mat", d;
        auto &f = (*F)[p];
        if (!f.certain || !f.exists || f.damaged || f.flipped || !fs_read(p, d) || d.empty()) return;
        if (a[2] == "cut") {
            int k = I(3) % 100, n = int(d.size()); // often close to either end
            fs_put(p, d.substr(0, k < 30 ? size_t(std::min(I(3) / 100, n - 1)) : k < 60 ? size_t(std::max(0, n - 1 - I(3) / 100 % 40)) : size_t(I(3) % n)));
            f.damaged = true;
        } else if (a[2] == "remove") {
            fs_remove(p);
            f.exists = false;
        } else if (a[2] == "garbage") {
            static const char *g[] = {"", "g", "{\"a\": \"1\"}\n", "SQLite format 3", "garbage that is a bit longer than the header of a matrix file"};
            fs_put(p, g[I(3) % 5]);
            f.damaged = true;
        } else if (a[2] == "dir") {
            fs_remove(p);
            fs_mkdirs(p);
            f.damaged = true;
            f.certain = true;
        } else if (a[2] == "flip") {
            Rng r(uint64_t(I(3)) + 1);
            size_t at = r.chance(0.5) ? r.below(std::min<size_t>(d.size(), 60)) : r.below(d.size());
            for (int k = r.range(1, 6); k-- && at < d.size(); at++) d[at] = char(r.chance(0.5) ? 0xff : r.next());
            fs_put(p, d);
            f.flipped = true;
        }
        probe("files_damaged");
        return;
    }
    int o = I(1) % 4, o2 = I(2) % 4;
    if (a[0] == "save" && (*F)["/sim/work/matrix" + std::to_string(I(3) % 4) + ".mat"].damaged) {
        std::string p = "/sim/work/matrix" + std::to_string(I(3) % 4) + ".mat";
        auto n = fs_lookup(p);
        if (n && n->dir) return;
    }
    if (o < 2)
        op_on(w.d, o, o2 % 2, a, op);
    else
        op_on(w.c, o - 2, o2 % 2, a, op);
}
void execute(const Plan &p) {
    {
        Quiet q;
        F = new std::map<std::string, FileState>;
        fs_mkdirs("/sim/work");
    }
    int64_t cap = int64_t(p.knob("disk", -1));
    if (cap >= 0) fs_set_capacity(fs_used() + cap);
    int pid = start_process([&]() -> int {
        World *w;
        {
            Quiet q;
            w = new World;
        }
        for (auto &op : p.ops) run_op(*w, op);
        return 0;
    });
    ProcInfo pi = wait_process(pid);
    if (pi.how != Exit::Done && pi.how != Exit::Killed) violation("abort", "the program ended: %s", pi.what.c_str());
    faults_enable(false);
    fs_set_capacity(-1);
    int p2 = start_process([&]() -> int {
        World *w;
        {
            Quiet q;
            w = new World;
        }
        for (int f = 0; f < 4; f++)
            for (int o = 0; o < 4; o += 2) run_op(*w, "load " + std::to_string(o) + " 0 " + std::to_string(f));
        run_op(*w, "new 1 5 6 4 0 99");
        run_op(*w, "save 1 0 0");
        run_op(*w, "load 0 0 0");
        return 0;
    });
    pi = wait_process(p2);
    if (pi.how != Exit::Done) violation("abort", "the program ended: %s", pi.what.c_str());
}
void generate(Plan &p, Rng &r, bool thorough) {
    auto S = [](int x) { return std::to_string(x); };
    int n = r.range(6, thorough ? 70 : 40), big = r.chance(0.15) ? 24 : 7;
    bool faults = r.chance(0.55);
    double pd = r.chance(0.6) ? 0.1 : 0;
    static const std::vector<std::string> ops = {"again", "edit", "edit", "add", "sub", "scale", "abs", "cutoff", "prune", "prune", "block", "basis", "solve", "hash", "copy", "bytes"};
    bool one = r.chance(0.5); // stay on one kind of number mostly
    for (int i = 0; i < n; i++) {
        double u = r.unit();
        std::string o = S(one && r.chance(0.9) ? r.range(0, 1) : r.range(0, 3)), o2 = S(r.range(0, 1));
        std::string f = S(r.range(0, r.chance(0.7) ? 1 : 3));
        if (u < 0.13)
            p.ops.push_back("new " + o + " " + S(r.range(0, big)) + " " + S(r.range(0, big)) + " " + S(r.range(1, 9)) + " " + S(r.range(0, 5)) + " " + S(r.range(0, 9999)));
        else if (u < 0.2)
            p.ops.push_back("diag " + o + " " + S(r.range(0, big)) + " 0 0 0 " + S(r.range(0, 9999)));
        else if (u < 0.48) {
            std::string k = r.pick(ops);
            p.ops.push_back(k + " " + o + " " + (k == "again" || k == "edit" ? S(r.range(0, 8)) : o2) + " " + S(r.range(0, 8)) + " " + S(r.range(0, 9)) + " " + S(r.range(0, 5)) + " " + S(r.range(0, 9999)));
        } else if (r.chance(pd)) {
            const char *k[] = {"cut", "cut", "cut", "cut", "remove", "garbage", "flip", "flip", "dir"};
            p.ops.push_back("damage " + f + " " + k[r.below(9)] + " " + S(r.range(0, 100000)));
        } else if (u < 0.72)
            p.ops.push_back("save " + o + " 0 " + f);
        else
            p.ops.push_back("load " + o + " 0 " + f);
    }
    knob(p, "shadow", 0);
    if (faults) {
        int nf = r.range(1, 3);
        double u = r.unit();
        if (u < 0.2)
            knob(p, "disk", r.range(0, 6000));
        else if (u < 0.4)
            add_fault(p, "any", 1, 1 + r.below(80), 1, "kill");
        else if (u < 0.6)
            add_fault(p, "write", 1, 1 + r.below(25), 1, "torn", r.range(0, 5000));
        else
            for (int i = 0; i < nf; i++) {
                const char *cls[] = {"read", "write", "write", "open", "close", "alloc"};
                const char *c = cls[r.below(6)];
                const char *act = c[0] == 'a' ? "enomem" : c[0] == 'w' ? (r.chance(0.4) ? "enospc" : r.chance(0.5) ? "short" : "eio")
                    : c[0] == 'o' ? (r.chance(0.5) ? "emfile" : "eacces") : c[0] == 'c' ? "eio" : r.chance(0.3) ? "short" : "eio";
                add_fault(p, c, 1, 1 + r.below(c[0] == 'a' ? 300 : 25), r.chance(0.8) ? 1 : r.range(2, 8), act, r.range(0, 3000));
            }
    }
}
Register reg({"matrix", "C15", generate, execute, 1.0});
} // namespace
