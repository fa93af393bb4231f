// C20/C21: histories of atom and pair systems - changes, builds, queries, copies, failures and transfers to other processes.
#include "Constants.hpp"
#include "EigenCompat.hpp"
#include "MatrixElementCache.hpp"
#include "SystemOne.hpp"
#include "SystemTwo.hpp"
#include <Eigen/Eigenvalues>
#include "scen/util.hpp"
#include <algorithm>
#include <cereal/archives/binary.hpp>
#include <cereal/types/array.hpp>
#include <cereal/types/string.hpp>
#include <complex>
#include <gsl/gsl_errno.h>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>

using namespace sim;
namespace {
typedef std::vector<std::string> Words;
typedef std::complex<double> C;
const double MAX = std::numeric_limits<double>::max();
void gsl_fails(const char *reason, const char *, int, int) { throw std::runtime_error(reason); }
double D(const std::string &s) { return s == "max" ? MAX : atof(s.c_str()); }
std::string num(double d) {
    if (d == MAX) return "max";
    char b[40];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
std::string joined(const Words &w) {
    std::string s;
    for (auto &x : w) s += (s.empty() ? "" : " ") + x;
    return s;
}
std::string label(const StateOne &s) {
    if (s.isArtificial()) return s.getLabel();
    char b[80];
    snprintf(b, sizeof b, "%s:%d:%d:%g:%g", s.getSpecies().c_str(), s.getN(), s.getL(), double(s.getJ()), double(s.getM()));
    return b;
}
std::string label(const StateTwo &s) { return label(s.getFirstState()) + "/" + label(s.getSecondState()); }
StateOne one_state(const std::string &t) {
    auto v = t;
    std::replace(v.begin(), v.end(), ':', ' ');
    auto w = words(v);
    if (w.size() < 5) return StateOne(w[0]);
    return StateOne(w[0], atoi(w[1].c_str()), atoi(w[2].c_str()), atof(w[3].c_str()), atof(w[4].c_str()));
}
template <class S>
S make_state(const std::string &t);
template <>
StateOne make_state<StateOne>(const std::string &t) { return one_state(t); }
template <>
StateTwo make_state<StateTwo>(const std::string &t) {
    auto k = t.find('/');
    return StateTwo(one_state(t.substr(0, k)), one_state(t.substr(k + 1)));
}

// some of the quantum numbers are arbitrary
StateOne unspecified(const StateOne &x, int mode) { return StateOne(x.getSpecies(), mode ? ARB : x.getN(), x.getL(), x.getJ(), float(ARB)); }
StateTwo unspecified(const StateTwo &x, int mode) { return StateTwo(unspecified(x.getFirstState(), 0), unspecified(x.getSecondState(), mode)); }
bool like(const StateOne &x, const StateOne &y, int mode) { return x.getSpecies() == y.getSpecies() && (mode || x.getN() == y.getN()) && x.getL() == y.getL() && x.getJ() == y.getJ(); }
bool like(const std::string &a, const std::string &b, int mode) {
    size_t i = a.find('/'), j = b.find('/');
    if (i == std::string::npos) return like(one_state(a), one_state(b), mode);
    return like(one_state(a.substr(0, i)), one_state(b.substr(0, j)), 0) && like(one_state(a.substr(i + 1)), one_state(b.substr(j + 1)), mode);
}

// ---------------------------------------------------------------- what can be seen of a system
struct Obs {
    bool ok = false;
    std::string what;
    std::vector<std::string> labels;
    Eigen::MatrixXcd P, H;
    int cols = 0;
    double scale = 0;
    std::vector<double> ev; // of the Hamiltonian as it is
};

// ---------------------------------------------------------------- one interface for the four classes
struct Sys {
    MatrixElementCache *cache = nullptr;
    virtual ~Sys() {}
    virtual void apply(const Words &w) = 0; // w[0]: command
    virtual Obs observe() = 0;              // builds the Hamiltonian
    virtual std::vector<std::string> states() = 0;
    virtual double overlap(const std::string &s) = 0;
    virtual double overlap(const std::string &s, double a, double b, double g) = 0;
    virtual double overlap_any(const std::string &s, int mode) = 0;       // summed over unspecified quantum numbers
    virtual double overlap_indices(size_t n) = 0;                         // of the first n states
    virtual std::pair<size_t, size_t> shape() = 0;                        // of the basis vectors
    virtual Eigen::MatrixXcd matrix(bool vectors) = 0;
    virtual C entry(const std::string &r, const std::string &c) = 0;
    virtual size_t index(const std::string &s) = 0;
    virtual size_t vector_index(const std::string &s) = 0;
    virtual size_t num_states() = 0;
    virtual size_t num_vectors() = 0;
    virtual std::vector<std::string> main_states() = 0;
    virtual std::array<std::vector<size_t>, 2> connections(Sys &o) = 0;
    virtual void plus(Sys &o) = 0;
    virtual double off_diagonal() = 0; // of the Hamiltonian as it is
    virtual bool exists() = 0;         // has a basis
    virtual Sys *copy() = 0;
    virtual std::string save() = 0;
    virtual void load(const std::string &blob) = 0;
};
std::set<int> iset(const Words &w) {
    std::set<int> s;
    for (size_t i = 1; i < w.size(); i++) s.insert(atoi(w[i].c_str()));
    return s;
}
std::set<float> fset(const Words &w) {
    std::set<float> s;
    for (size_t i = 1; i < w.size(); i++) s.insert(float(atof(w[i].c_str())));
    return s;
}
parity_t parity(const std::string &s) { return s == "even" ? EVEN : s == "odd" ? ODD : NA; }
std::array<double, 3> vec3(const Words &w) { return {{D(w[1]), D(w[2]), D(w[3])}}; }

template <class T>
bool special(SystemOne<T> &s, const Words &w) {
    const std::string &c = w[0];
    if (c == "efield") s.setEfield(vec3(w));
    else if (c == "bfield") s.setBfield(vec3(w));
    else if (c == "dia") s.enableDiamagnetism(w[1] == "1");
    else if (c == "charge") s.setIonCharge(atoi(w[1].c_str()));
    else if (c == "order") s.setRydIonOrder(unsigned(atoi(w[1].c_str())));
    else if (c == "iondist") s.setRydIonDistance(D(w[1]));
    else if (c == "refl") s.setConservedParityUnderReflection(parity(w[1]));
    else if (c == "rot") s.setConservedMomentaUnderRotation(w.size() > 1 ? fset(w) : std::set<float>{float(ARB)});
    else return false;
    return true;
}
template <class T>
bool special(SystemTwo<T> &s, const Words &w) {
    const std::string &c = w[0];
    if (c == "dist") s.setDistance(D(w[1]));
    else if (c == "vec") s.setDistanceVector(vec3(w));
    else if (c == "angle") s.setAngle(D(w[1]));
    else if (c == "ord") s.setOrder(D(w[1]));
    else if (c == "gt") s.enableGreenTensor(w[1] == "1");
    else if (c == "surf") s.setSurfaceDistance(D(w[1]));
    else if (c == "perm") s.setConservedParityUnderPermutation(parity(w[1]));
    else if (c == "inv") s.setConservedParityUnderInversion(parity(w[1]));
    else if (c == "rot") s.setConservedMomentaUnderRotation(w.size() > 1 ? iset(w) : std::set<int>{ARB});
    else if (c == "pairs") {
        std::vector<std::array<size_t, 2>> v;
        for (size_t i = 1; i < w.size(); i++) v.push_back({{size_t(atoi(w[i].c_str())), size_t(atoi(w[i].substr(w[i].find(':') + 1).c_str()))}});
        s.setOneAtomBasisvectors(v);
    } else return false;
    return true;
}
template <class S, class T, class St>
struct Impl : Sys {
    S s;
    Impl(const S &x, MatrixElementCache *c) : s(x) { cache = c; }
    void apply(const Words &w) override {
        const std::string &c = w[0];
        if (special(s, w)) return;
        if (c == "n") s.restrictN(iset(w));
        else if (c == "nr") s.restrictN(atoi(w[1].c_str()), atoi(w[2].c_str()));
        else if (c == "l") s.restrictL(iset(w));
        else if (c == "lr") s.restrictL(atoi(w[1].c_str()), atoi(w[2].c_str()));
        else if (c == "j") s.restrictJ(fset(w));
        else if (c == "jr") s.restrictJ(float(D(w[1])), float(D(w[2])));
        else if (c == "m") s.restrictM(fset(w));
        else if (c == "mr") s.restrictM(float(D(w[1])), float(D(w[2])));
        else if (c == "e") s.restrictEnergy(D(w[1]), D(w[2]));
        else if (c == "add") s.addStates(make_state<St>(w[1]));
        else if (c == "norm") s.setMinimalNorm(D(w[1]));
        else if (c == "build") {
            if (w[1] == "b") s.buildBasis();
            else if (w[1] == "i") s.buildInteraction();
            else s.buildHamiltonian();
        } else if (c == "diag") s.diagonalize();
        else if (c == "canon") s.canonicalize();
        else if (c == "unit") s.unitarize();
        else if (c == "rotate") s.rotate(D(w[1]), D(w[2]), D(w[3]));
        else if (c == "window") { // keep the eigenvectors with energies inside
            Eigen::SparseMatrix<T> h = s.getHamiltonian();
            std::vector<size_t> v;
            for (int i = 0; i < h.cols(); i++)
                if (std::real(h.coeff(i, i)) > D(w[1]) && std::real(h.coeff(i, i)) < D(w[2])) v.push_back(size_t(i));
            s.constrainBasisvectors(v);
        } else if (c == "constrain") {
            std::vector<size_t> v;
            for (size_t i = 1; i < w.size(); i++) v.push_back(strtoull(w[i].c_str(), nullptr, 10));
            s.constrainBasisvectors(v);
        } else throw std::logic_error("unknown command " + c);
    }
    Obs observe() override {
        Obs o;
        Eigen::SparseMatrix<T> h = s.getHamiltonian();
        Eigen::SparseMatrix<T> b = s.getBasisvectors();
        for (auto &x : s.getStates()) o.labels.push_back(label(x));
        if (b.rows() != long(o.labels.size()) || b.cols() != h.rows() || h.rows() != h.cols())
            throw std::logic_error("inconsistent: " + std::to_string(o.labels.size()) + " states, basis vectors " + std::to_string(b.rows()) + "x" + std::to_string(b.cols()) +
                                   ", Hamiltonian " + std::to_string(h.rows()) + "x" + std::to_string(h.cols()));
        Eigen::MatrixXcd B = Eigen::MatrixX<T>(b).template cast<C>(), Hm = Eigen::MatrixX<T>(h).template cast<C>();
        o.P = B * B.adjoint();
        o.H = B * Hm * B.adjoint();
        o.cols = int(b.cols());
        o.scale = Hm.cwiseAbs().maxCoeff();
        Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(Hm, Eigen::EigenvaluesOnly);
        for (int i = 0; i < es.eigenvalues().size(); i++) o.ev.push_back(es.eigenvalues()[i]);
        o.ok = true;
        return o;
    }
    std::vector<std::string> states() override {
        std::vector<std::string> v;
        for (auto &x : s.getStates()) v.push_back(label(x));
        return v;
    }
    double overlap(const std::string &t) override { return s.getOverlap(make_state<St>(t)).sum(); }
    double overlap(const std::string &t, double a, double b, double g) override { return s.getOverlap(make_state<St>(t), a, b, g).sum(); }
    double overlap_any(const std::string &t, int mode) override { return s.getOverlap(unspecified(make_state<St>(t), mode)).sum(); }
    double overlap_indices(size_t n) override {
        std::vector<size_t> v(n);
        for (size_t i = 0; i < n; i++) v[i] = i;
        return s.getOverlap(v).sum();
    }
    std::pair<size_t, size_t> shape() override {
        Eigen::SparseMatrix<T> b = s.getBasisvectors();
        return {size_t(b.rows()), size_t(b.cols())};
    }
    Eigen::MatrixXcd matrix(bool vectors) override { return Eigen::MatrixX<T>(vectors ? s.getBasisvectors() : s.getHamiltonian()).template cast<C>(); }
    C entry(const std::string &r, const std::string &c) override { return C(s.getHamiltonianEntry(make_state<St>(r), make_state<St>(c))); }
    size_t index(const std::string &t) override { return s.getStateIndex(make_state<St>(t)); }
    size_t vector_index(const std::string &t) override { return s.getBasisvectorIndex(make_state<St>(t)); }
    size_t num_states() override { return s.getNumStates(); }
    size_t num_vectors() override { return s.getNumBasisvectors(); }
    std::vector<std::string> main_states() override {
        std::vector<std::string> v;
        for (auto &x : s.getMainStates()) v.push_back(label(x));
        return v;
    }
    std::array<std::vector<size_t>, 2> connections(Sys &o) override {
        auto *p = dynamic_cast<Impl<S, T, St> *>(&o);
        return p ? s.getConnections(p->s, 0.001) : std::array<std::vector<size_t>, 2>();
    }
    void plus(Sys &o) override {
        auto *p = dynamic_cast<Impl<S, T, St> *>(&o);
        if (p) s.add(p->s);
    }
    double off_diagonal() override {
        Eigen::MatrixX<T> h = s.getHamiltonian();
        double m = 0;
        for (int i = 0; i < h.rows(); i++)
            for (int j = 0; j < h.cols(); j++)
                if (i != j) m = std::max(m, std::abs(h(i, j)));
        return m;
    }
    bool exists() override { return s.getStatesMultiIndex().size() != 0; }
    Sys *copy() override { return new Impl<S, T, St>(s, cache); }
    std::string save() override {
        std::stringstream ss;
        cereal::BinaryOutputArchive ar(ss);
        ar << cereal::make_nvp("System", s);
        if (!ss) throw std::runtime_error("stream");
        return ss.str();
    }
    void load(const std::string &blob) override {
        std::stringstream ss(blob);
        cereal::BinaryInputArchive ar(ss);
        ar >> cereal::make_nvp("System", s);
    }
};
typedef Impl<SystemOne<double>, double, StateOne> OneR;
typedef Impl<SystemOne<C>, C, StateOne> OneC;
typedef Impl<SystemTwo<double>, double, StateTwo> TwoR;
typedef Impl<SystemTwo<C>, C, StateTwo> TwoC;
Sys *make_one(bool cplx, const std::string &species, MatrixElementCache *c, bool mem) {
    if (cplx) return mem ? new OneC(SystemOne<C>(species, *c, true), c) : new OneC(SystemOne<C>(species, *c), c);
    return mem ? new OneR(SystemOne<double>(species, *c, true), c) : new OneR(SystemOne<double>(species, *c), c);
}
Sys *make_two(bool cplx, Sys *a, Sys *b, MatrixElementCache *c, bool mem) {
    if (cplx) {
        auto &x = dynamic_cast<OneC *>(a)->s, &y = dynamic_cast<OneC *>(b)->s;
        return mem ? new TwoC(SystemTwo<C>(x, y, *c, true), c) : new TwoC(SystemTwo<C>(x, y, *c), c);
    }
    auto &x = dynamic_cast<OneR *>(a)->s, &y = dynamic_cast<OneR *>(b)->s;
    return mem ? new TwoR(SystemTwo<double>(x, y, *c, true), c) : new TwoR(SystemTwo<double>(x, y, *c), c);
}

// ---------------------------------------------------------------- the model: the settings that count
struct Model {
    bool two = false, cplx = false, mem = false;
    std::string species;
    std::shared_ptr<Model> kid[2];
    std::shared_ptr<Model> sum[2];         // the systems it was put together from
    bool fixed = false;                    // eigenvectors have been selected
    bool unit = false;                     // its states have been renamed
    bool same_kid = false;
    std::map<std::string, Words> sym;      // symmetries
    std::map<std::string, Words> par;      // parameters
    std::map<std::string, Words> pend;     // restrictions not yet applied
    std::vector<Words> basis;              // restrictions the basis was made with
    std::vector<Words> trans;              // what was done to the basis afterwards
    std::map<std::string, Words> at_rot;   // parameters in force when it was rotated
    bool built = false, rotated = false, touched = false, vague = false;
    bool diag = false, diag_failed = false, canon = false, unsure_built = false;
    int contained = 0;                     // interaction contained: 0 no, 1 yes, 2 unknown
    bool needed = false;                   // parameters were changed since the last build
    double d = MAX, x = 0, y = 0, z = MAX, surf = MAX;
    bool gt = false;
    bool any_field() const {
        if (two) return (kid[0]->any_field() || kid[1]->any_field());
        return !par.empty();
    }
    bool vectors_are_states() const { return !diag && !canon && !fixed && !unit && !sum[0] && sym.empty() && !rotated && (!two || pure()); }
    bool loose() const { return unit || (two && (kid[0]->unit || kid[1]->unit)); } // the names of the states mean nothing
    bool pure() const { // basis vectors of the atoms are single states
        if (!two) return par.empty() && sym.empty() && !rotated && !diag;
        return kid[0]->pure() && kid[1]->pure() && sym.empty();
    }
    bool plain_kids() const { return kid[0]->par.empty() && kid[1]->par.empty() && !kid[0]->rotated && !kid[1]->rotated && !loose() && kid[0]->sym.empty() && kid[1]->sym.empty(); }
    bool frozen() const { return (rotated || unit || sum[0]) && !touched; } // the parameters were applied on the way
    std::vector<Words> params() const {
        std::vector<Words> v;
        for (auto &e : par) v.push_back(e.second);
        return v;
    }
    void lines(std::vector<Words> &out, const std::string &pre) const {
        out.push_back({pre, two ? "two" : "one", cplx ? "c" : "r", species});
        for (int i = 0; i < 2; i++)
            if (kid[i] && !sum[0]) kid[i]->lines(out, pre + ">");
        for (int i = 0; i < 2; i++)
            if (sum[i]) {
                sum[i]->lines(out, pre + "+");
                out.push_back({"f", std::to_string(sum[i]->contained), std::to_string(sum[i]->needed)});
            }
        auto put = [&](const char *k, const std::vector<Words> &v) {
            for (auto &w : v) {
                out.push_back(w);
                out.back().insert(out.back().begin(), k);
            }
        };
        for (auto &e : sym) put("s", {e.second});
        put("b", basis);
        for (auto &e : pend) put("q", {e.second});
        if (rotated || unit)
            for (auto &e : at_rot) put("a", {e.second});
        put("t", trans);
        if (!frozen()) put("p", params());
    }
    std::string text() const {
        std::vector<Words> v;
        lines(v, "");
        std::string s;
        for (auto &w : v) s += joined(w) + "\n";
        return s;
    }
};
bool is_restriction(const std::string &c) { return c == "n" || c == "nr" || c == "l" || c == "lr" || c == "j" || c == "jr" || c == "m" || c == "mr" || c == "e"; }
bool is_kept(const std::string &c) { return is_restriction(c) || c == "norm"; }
std::string kind_of(const std::string &c) { return c.size() == 2 && c[1] == 'r' ? c.substr(0, 1) : c; }
bool is_sym(const std::string &c) { return c == "refl" || c == "rot" || c == "perm" || c == "inv" || c == "pairs"; }
bool is_par(const std::string &c) {
    static const std::set<std::string> s{"efield", "bfield", "dia", "charge", "order", "iondist", "dist", "vec", "angle", "ord", "gt", "surf"};
    return s.count(c) != 0;
}

// ---------------------------------------------------------------- references
MatrixElementCache *REFCACHE;
std::map<std::string, Obs> *MEMO;
// parameters in an order that is always accepted
void apply_params(Sys *s, const std::map<std::string, Words> &par) {
    for (const char *c : {"efield", "bfield", "dia", "charge", "order", "iondist", "ord", "surf", "vec", "gt"}) {
        auto i = par.find(c);
        if (i != par.end()) s->apply(i->second);
    }
}
std::unique_ptr<Sys> replay(const Model &m) { // an undisturbed system with the same settings
    std::unique_ptr<Sys> s;
    if (m.sum[0]) {
        s = replay(*m.sum[0]);
        auto o = replay(*m.sum[1]);
        if (m.sum[0]->contained == 1 && !m.sum[0]->needed) {
            s->apply({"build", "h"});
            o->apply({"build", "h"});
        }
        s->plus(*o);
    } else if (m.two) {
        auto a = replay(*m.kid[0]), b = replay(*m.kid[1]);
        s.reset(make_two(m.cplx, a.get(), b.get(), REFCACHE, false));
    } else
        s.reset(make_one(m.cplx, m.species, REFCACHE, false));
    if (!m.sum[0])
        for (auto &e : m.sym) s->apply(e.second);
    for (auto &w : m.basis) s->apply(w);
    auto pend = [&] {
        for (auto &e : m.pend)
            if (e.first.compare(0, 4, "add ") == 0) s->apply({"add", e.first.substr(4)});
            else s->apply(e.second);
    };
    if (!m.built) pend();
    if (m.built) s->apply({"build", "b"});
    for (auto &w : m.trans) {
        if (w[0] == "rotate" || w[0] == "unit" || w[0] == "window") apply_params(s.get(), m.at_rot);
        if (w[0] == "window") s->apply({"diag"});
        s->apply(w);
        if (is_kept(w[0])) s->apply({"build", "b"});
    }
    if (m.built) pend();
    if (!m.frozen()) apply_params(s.get(), m.par);
    return s;
}
const Obs &reference(const Model &m) {
    Quiet q;
    std::string k = m.text();
    auto i = MEMO->find(k);
    if (i == MEMO->end()) {
        Obs o;
        try {
            o = replay(m)->observe();
        } catch (std::exception &e) {
            o.ok = false;
            o.what = e.what();
        }
        i = MEMO->emplace(k, o).first;
    }
    return i->second;
}
bool basis_ok(const Model &m) { // can the basis be made?
    Model b = m;
    b.par.clear();
    b.at_rot.clear();
    if (b.rotated || b.unit || b.sum[0]) return true; // it exists
    return reference(b).ok;
}
void compare(const Obs &o, const Obs &r, const char *who, const Model &m) {
    if (m.loose()) {
        if (m.canon) return;
        if (o.labels.size() != r.labels.size() || o.cols != r.cols)
            violation("wrong-basis", "%s: has %zu states and %d basis vectors instead of %zu and %d; settings: %s", who, o.labels.size(), o.cols, r.labels.size(), r.cols, m.text().c_str());
        for (size_t i = 0; i < o.ev.size(); i++)
            if (!(std::fabs(o.ev[i] - r.ev[i]) < 1e-12 * std::max(r.scale, 1.) * (10 + double(o.ev.size()))))
                violation("wrong-energies", "%s: eigenvalue %zu is %.12g instead of %.12g GHz; settings: %s", who, i, o.ev[i], r.ev[i], m.text().c_str());
        return;
    }
    std::map<std::string, int> pos;
    for (size_t i = 0; i < r.labels.size(); i++) pos[r.labels[i]] = int(i);
    if (o.labels.size() != r.labels.size()) violation("wrong-basis", "%s: has %zu states instead of %zu; settings: %s", who, o.labels.size(), r.labels.size(), m.text().c_str());
    std::vector<int> at;
    for (auto &l : o.labels) {
        if (!pos.count(l)) violation("wrong-basis", "%s: state %s is not in the basis of an undisturbed build; settings: %s", who, l.c_str(), m.text().c_str());
        at.push_back(pos[l]);
    }
    if (!m.canon && o.cols != r.cols) violation("wrong-basis", "%s: has %d basis vectors instead of %d; settings: %s", who, o.cols, r.cols, m.text().c_str());
    double dp = 0, dh = 0;
    int pi = 0, pj = 0, hi = 0, hj = 0;
    for (size_t i = 0; i < at.size(); i++)
        for (size_t j = 0; j < at.size(); j++) {
            double a = std::abs(o.P(i, j) - r.P(at[i], at[j])), b = std::abs(o.H(i, j) - r.H(at[i], at[j]));
            if (!(a <= dp)) dp = a, pi = int(i), pj = int(j);
            if (!(b <= dh)) dh = b, hi = int(i), hj = int(j);
        }
    if (!(dp < 1e-8)) violation("wrong-basis", "%s: the basis vectors span another space (<%s|P|%s> is off by %g); settings: %s", who, o.labels[pi].c_str(), o.labels[pj].c_str(), dp, m.text().c_str());
    double scale = std::max(r.scale, 1.);
    if (!(dh < 1e-12 * scale * (10 + double(at.size()))))
        violation("wrong-hamiltonian", "%s: <%s|H|%s> is %.12g%+.12gi instead of %.12g%+.12gi GHz; settings: %s", who, o.labels[hi].c_str(), o.labels[hj].c_str(), o.H(hi, hj).real(), o.H(hi, hj).imag(),
                  r.H(at[hi], at[hj]).real(), r.H(at[hi], at[hj]).imag(), m.text().c_str());
}

// the states must be those the restrictions ask for
bool within(const StateOne &x, const Words &w) {
    std::string k = kind_of(w[0]);
    if (x.isArtificial() || (k != "n" && k != "l" && k != "j" && k != "m")) return true;
    double v = k == "n" ? x.getN() : k == "l" ? x.getL() : k == "j" ? x.getJ() : x.getM();
    if (w[0].size() == 2) {
        double lo = D(w[1]), hi = D(w[2]);
        return v > lo - 1e-6 && v < hi + 1e-6 && std::fabs((v - lo) - std::round(v - lo)) < 1e-6;
    }
    for (size_t i = 1; i < w.size(); i++)
        if (std::fabs(v - D(w[i])) < 1e-6) return true;
    return false;
}
bool within(const std::string &l, const Words &w) {
    auto k = l.find('/');
    return k == std::string::npos ? within(one_state(l), w) : within(one_state(l.substr(0, k)), w) && within(one_state(l.substr(k + 1)), w);
}
bool allowed(const std::string &l, const Model &m) {
    bool added = false;
    for (auto &w : m.basis)
        if (w[0] == "add" && w[1] == l) added = true;
    if (!added) {
        for (auto &w : m.basis)
            if (!within(l, w)) return false;
        if (m.two) {
            auto k = l.find('/');
            if (!allowed(l.substr(0, k), *m.kid[0]) || !allowed(l.substr(k + 1), *m.kid[1])) return false;
        }
    }
    for (auto &w : m.trans)
        if (is_restriction(w[0]) && !within(l, w)) return false;
    return true;
}
bool states_known(const Model &m) {
    if (!m.sym.empty() || m.rotated || m.fixed || m.unit || m.sum[0] || !m.built || !m.pend.empty()) return false;
    bool n = false;
    for (auto &w : m.basis) {
        if (w[0] == "e" || w[0] == "norm" || (w[0] == "add" && m.two)) return false;
        n = n || kind_of(w[0]) == "n";
    }
    for (auto &w : m.trans)
        if (!is_restriction(w[0]) || w[0] == "e") return false;
    return m.two ? m.plain_kids() && states_known(*m.kid[0]) && states_known(*m.kid[1]) : n;
}
std::set<std::string> all_states(const Model &m) {
    std::set<std::string> v;
    if (m.two) {
        auto a = all_states(*m.kid[0]), b = all_states(*m.kid[1]);
        for (auto &x : a)
            for (auto &y : b)
                if (allowed(x + "/" + y, m)) v.insert(x + "/" + y);
        return v;
    }
    for (int n = 1; n < 40; n++)
        for (int l = 0; l < n; l++)
            for (float j = std::fabs(l - 0.5f); j <= l + 0.5f; ++j)
                for (float mm = -j; mm <= j; ++mm) {
                    StateOne x(m.species, n, l, j, mm);
                    bool ok = true;
                    for (auto &w : m.basis) ok = ok && (w[0] == "add" || within(x, w));
                    for (auto &w : m.trans) ok = ok && within(x, w);
                    if (ok) v.insert(label(x));
                }
    for (auto &w : m.basis)
        if (w[0] == "add") {
            bool ok = true;
            for (auto &u : m.trans) ok = ok && within(w[1], u);
            if (ok) v.insert(w[1]);
        }
    return v;
}
void compare_states(const Obs &o, const char *who, const Model &m) {
    if (m.loose() || m.sum[0] || !m.pend.empty()) return;
    for (auto &l : o.labels)
        if (!allowed(l, m)) violation("wrong-basis", "%s: state %s is excluded by the settings: %s", who, l.c_str(), m.text().c_str());
    if (!states_known(m)) return;
    auto e = all_states(m);
    for (auto &l : o.labels)
        if (l.find('G') != std::string::npos || l.find(':') == std::string::npos) return;
    if (e != std::set<std::string>(o.labels.begin(), o.labels.end())) violation("wrong-basis", "%s: has %zu states instead of %zu; settings: %s", who, o.labels.size(), e.size(), m.text().c_str());
    probe("states_compared");
    if (m.trans.empty() || !m.vectors_are_states()) return;
    Model g = m; // what a restriction of the finished basis leaves is part of what it was
    g.trans.clear();
    const Obs &w = reference(g);
    if (!w.ok) return;
    std::map<std::string, int> pos;
    for (size_t i = 0; i < w.labels.size(); i++) pos[w.labels[i]] = int(i);
    double d = 0;
    for (size_t i = 0; i < o.labels.size(); i++)
        for (size_t j = 0; j < o.labels.size(); j++) d = std::max(d, std::abs(o.H(i, j) - w.H(pos.at(o.labels[i]), pos.at(o.labels[j]))));
    if (!(d < 2e-12 * std::max(w.scale, 1.) * (10 + double(o.labels.size())))) violation("wrong-hamiltonian", "%s: the Hamiltonian between the remaining states is off by %g GHz; settings: %s", who, d, m.text().c_str());
    probe("restrictions_compared");
}

// basis vectors were selected: they stay the same, and the Hamiltonian is the one of the whole system between them
void compare_selected(const Obs &o, const char *who, const Model &m) {
    if (m.trans.empty() || m.loose() || m.canon || (m.trans.back()[0] != "window" && m.trans.back()[0] != "constrain")) return;
    Model g = m;
    g.trans.pop_back();
    if (m.fixed) {
        g.rotated = g.fixed = false;
        if (!m.touched) g.par = m.at_rot;
    }
    const Obs &w = reference(g);
    if (!w.ok) return;
    std::map<std::string, int> pos;
    for (size_t i = 0; i < w.labels.size(); i++) pos[w.labels[i]] = int(i);
    size_t n = o.labels.size();
    Eigen::MatrixXcd h = Eigen::MatrixXcd::Zero(n, n), p = Eigen::MatrixXcd::Zero(n, n);
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) {
            if (!pos.count(o.labels[i]) || !pos.count(o.labels[j])) return;
            h(i, j) = w.H(pos[o.labels[i]], pos[o.labels[j]]);
            p(i, j) = w.P(pos[o.labels[i]], pos[o.labels[j]]);
        }
    if ((o.P * o.P - o.P).cwiseAbs().maxCoeff() > 1e-12 || (p * p - p).cwiseAbs().maxCoeff() > 1e-12) return; // cut vectors
    double dp = (p * o.P - o.P).cwiseAbs().maxCoeff(), dh = (o.P * h * o.P - o.H).cwiseAbs().maxCoeff();
    if (!(dp < 1e-8)) violation("wrong-basis", "%s: the selected basis vectors are outside of the space they were selected from (by %g); settings: %s", who, dp, m.text().c_str());
    if (!(dh < 2e-12 * std::max(w.scale, 1.) * (10 + double(n))))
        violation("wrong-hamiltonian", "%s: the Hamiltonian between the selected basis vectors is off by %g GHz; settings: %s", who, dh, m.text().c_str());
    if (m.fixed && m.touched) {
        Model f = m;
        f.touched = false;
        f.par = f.at_rot;
        const Obs &r = reference(f);
        if (!r.ok) return;
        pos.clear();
        for (size_t i = 0; i < r.labels.size(); i++) pos[r.labels[i]] = int(i);
        double d = 0;
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++)
                if (pos.count(o.labels[i]) && pos.count(o.labels[j])) d = std::max(d, std::abs(o.P(i, j) - r.P(pos[o.labels[i]], pos[o.labels[j]])));
        if (!(d < 1e-8)) violation("wrong-basis", "%s: a change of parameters replaced the selected basis vectors (off by %g); settings: %s", who, d, m.text().c_str());
    }
    probe("selections_compared");
}

// ---------------------------------------------------------------- the objects under test
struct Slot {
    Sys *s = nullptr;
    Model m;
    int owner = 0;
};
struct Blob {
    bool have = false;
    std::string data;
    Model m;
};
std::map<int, Slot> *SLOT;
std::map<int, Blob> *BLOB;
std::map<int, MatrixElementCache *> *CACHE;
const char *DIRS[] = {"", "/sim/c1", "/sim/c2"};

bool excused(int pid) {
    for (auto &f : plan.faults)
        if (f.pid == 0 || f.pid == pid) return true;
    return false;
}
// the model's view of a distance
void distance_model(Model &m, const Words &w) {
    if (w[0] == "dist") {
        double d = D(w[1]);
        m.x = m.x / m.d * d;
        m.y = m.y / m.d * d;
        m.z = m.z / m.d * d;
        m.d = d;
    } else if (w[0] == "vec") {
        m.x = D(w[1]), m.y = D(w[2]), m.z = D(w[3]);
        m.d = std::sqrt(m.x * m.x + m.y * m.y + m.z * m.z);
        if (m.y != 0) m.gt = true;
    } else if (w[0] == "angle") {
        double a = D(w[1]);
        m.x = m.d * std::sin(a);
        m.y = 0;
        m.z = m.d * std::cos(a);
    } else if (w[0] == "gt")
        m.gt = w[1] == "1";
    else if (w[0] == "surf") {
        m.surf = D(w[1]);
        if (m.surf != MAX) m.gt = true;
    } else {
        m.par[w[0]] = w;
        return;
    }
    if (m.d != MAX) m.par["vec"] = {"vec", num(m.x), num(m.y), num(m.z)};
    if (m.surf != MAX) m.par["surf"] = {"surf", num(m.surf)};
    else if (m.par.count("surf")) m.par["surf"] = {"surf", "max"};
    m.par["gt"] = {"gt", m.gt ? "1" : "0"};
}
void flush(Model &m) { // the restrictions have been applied
    for (auto &e : m.pend) {
        Words w = e.second;
        if (m.built) m.trans.push_back(w);
        else m.basis.push_back(w);
    }
    m.pend.clear();
    m.built = true;
    m.vague = false;
}
void command(const Words &w) {
    int pid = self_pid();
    if (w.size() < 2) return;
    const std::string &c = w[0];
    int id = atoi(w[1].c_str());
    Slot *s = nullptr;
    Words a;
    std::string who;
    Model before;
    int what_kind = 0; // 1: setting, 2: basis level, 3: Hamiltonian level
    bool must_throw = false, may_throw = false;
    Obs ref, ref2;
    Blob from;
    bool b_ok = true;
    {
        Quiet q;
        a.assign(w.begin() + 2, w.end());
        a.insert(a.begin(), c);
        who = "process " + std::to_string(pid) + ", object " + std::to_string(id) + ": " + joined(a);
        if (c == "cache") {
            if (CACHE->count(id)) return;
        } else {
            s = &(*SLOT)[id];
            if (c == "one" || c == "two" || c == "load") {
                if (s->s) return;
            } else if (!s->s)
                return;
            if (s->s && s->owner && s->owner != pid) probe("carried_over");
            s->owner = pid;
            before = s->m;
        }
        Model &m = s->m;
        // commands that have no defined meaning for the present state are left out
        static const std::set<std::string> of_one{"add", "efield", "bfield", "dia", "charge", "order", "iondist"}, of_two{"perm", "inv", "pairs", "dist", "vec", "angle", "ord", "gt", "surf"};
        if (s && s->s && (m.two ? of_one : of_two).count(c)) return;
        if (c == "one" && !CACHE->count(atoi(a[1].c_str()))) return;
        if (c == "two") {
            auto &x = (*SLOT)[atoi(a[2].c_str())], &y = (*SLOT)[atoi(a[3].c_str())];
            if (!CACHE->count(atoi(a[1].c_str())) || !x.s || !y.s || x.m.two || y.m.two || x.m.cplx != y.m.cplx) return;
            const Obs &r1 = reference(x.m), &r2 = reference(y.m);
            if (!r1.ok || !r2.ok || r1.cols * r2.cols > 70) return;
            // truncated non-orthogonal vectors cannot be combined in a well-defined way
            if (x.m.canon || y.m.canon) return;
        }
        if (c == "copy" && (*SLOT)[atoi(a[1].c_str())].s) return;
        if (c == "load" && !(*BLOB)[atoi(a[1].c_str())].have) return;
        if (c == "norm") {
            if (m.two && D(a[1]) > 0.1) a[1] = "0.1"; // states that share a vector are kept together
            if (m.unit || m.rotated || m.diag || m.canon || m.vague || (m.built && m.two && !m.plain_kids())) return;
            what_kind = 1;
        } else if (is_restriction(c) || c == "add") {
            std::string k = kind_of(c);
            if (m.loose()) return;
            // cutting states out of vectors that mix them depends on the choice of degenerate vectors
            if (m.two && k != "e" && !m.plain_kids()) return;
            if (m.built) {
                if (c == "add" || k == "e" || m.diag || m.rotated || m.vague) return;
                if (m.two && !m.plain_kids()) return;
                if (!m.sym.empty() && (k == "m" || m.two)) return;
                Model t = m;
                t.par.clear();
                t.pend[k] = a;
                if (!reference(t).ok) return; // would remove everything
            }
            what_kind = 1;
        } else if (is_sym(c)) {
            what_kind = 1;
            if (m.two) {
                if (!m.plain_kids()) return;
                if ((c == "perm" || c == "inv") && !m.same_kid) return;
                if (c == "pairs") {
                    if (m.built) return;
                    // indices have to be valid
                    const Obs &r1 = reference(*m.kid[0]), &r2 = reference(*m.kid[1]);
                    if (!r1.ok || !r2.ok || !m.pend.empty()) return;
                    std::set<std::pair<int, int>> seen;
                    Words v{"pairs"};
                    for (size_t i = 1; i < a.size(); i++) {
                        int k = atoi(a[i].c_str()) % (r1.cols + (a.size() > 7)), l = atoi(a[i].substr(a[i].find(':') + 1).c_str()) % r2.cols;
                        if (seen.insert({k, l}).second) v.push_back(std::to_string(k) + ":" + std::to_string(l));
                    }
                    a = v;
                }
                if (m.sym.count("pairs") && c != "pairs") return;
                if (c == "pairs" && m.sym.size() > m.sym.count("pairs")) return;
            } else if (c == "refl" && !m.cplx)
                return;
            if (c != "pairs") {
                must_throw = m.built;
                may_throw = m.unsure_built;
            }
        } else if (is_par(c)) {
            what_kind = 1;
            if (!m.two && !m.cplx && (c == "efield" || c == "bfield") && D(a[2]) != 0) must_throw = true;
            if (c == "gt" && a[1] == "0" && m.surf != MAX) must_throw = true;
            if (m.mem && m.contained == 1) must_throw = true;
            if (m.mem && m.contained == 2) may_throw = true;
            if (m.unit) must_throw = true;
            if (m.two && (c == "dist" || c == "angle") && m.d == 0) return;
        } else if (c == "build" && a[1] == "b")
            what_kind = 2;
        else if (c == "q")
            what_kind = a[1] == "entry" ? 3 : 2;
        else if (c == "build" || c == "diag" || c == "canon" || c == "rotate" || c == "constrain" || c == "check" || c == "unit")
            what_kind = 3;
        if (c == "q" && m.loose() && a[1] != "num") return;
        if (c == "unit" && (m.unit || m.canon || m.rotated || m.vague || !m.pend.empty())) return;
        if (c == "plus") {
            Slot &o = (*SLOT)[atoi(a[1].c_str())];
            if (!o.s || &o == s || o.m.two != m.two || o.m.cplx != m.cplx) return;
            for (const Model *x : {&m, &o.m})
                if (x->loose() || x->canon || x->rotated || x->vague || x->contained == 2) return;
            const Obs &r1 = reference(m), &r2 = reference(o.m);
            if (!r1.ok || !r2.ok || !basis_ok(m) || !basis_ok(o.m) || r1.cols + r2.cols > 90) return;
            what_kind = 4;
            ref = r1;
            std::map<std::string, int> pos;
            for (size_t i = 0; i < r2.labels.size(); i++) pos[r2.labels[i]] = int(i);
            std::vector<std::pair<int, int>> both;
            for (size_t i = 0; i < r1.labels.size(); i++)
                if (pos.count(r1.labels[i])) both.push_back({int(i), pos[r1.labels[i]]});
            double ov = 0; // tr(P1 P2)
            for (auto &x : both)
                for (auto &y : both) ov += (r1.P(x.first, y.first) * r2.P(y.second, x.second)).real();
            must_throw = ov > 1e-8;
            may_throw = ov > 1e-24;
            const Model &y = o.m;
            if (m.mem != y.mem || m.contained != y.contained || m.needed != y.needed) must_throw = true;
            auto val = [](const Model &x, const char *k) {
                auto i = x.par.find(k);
                if (i != x.par.end()) {
                    std::string t;
                    for (size_t j = 1; j < i->second.size(); j++) t += num(D(i->second[j])) + " ";
                    return t;
                }
                std::string kk = k;
                return std::string(kk == "efield" || kk == "bfield" ? "0 0 0 " : kk == "dia" ? "1 " : kk == "ord" ? "3 " : kk == "iondist" || kk == "surf" ? "max " : kk == "vec" ? "" : "0 ");
            };
            for (const char *k : {"efield", "bfield", "dia", "charge", "order", "iondist", "vec", "ord", "gt", "surf"})
                if (val(m, k) != val(y, k)) must_throw = true;
            for (int i = 0; i < 2; i++)
                if (m.two ? m.kid[i]->species != y.kid[i]->species : m.species != y.species) must_throw = true;
        }
        if (c == "q" && a[1] == "overlapr") {
            const Obs &r = reference(m);
            for (auto &l : r.labels)
                if (l.find(':') == std::string::npos || l.find("G") != std::string::npos) return; // cannot be rotated
        }
        if (c == "q" && a[1] == "conn") {
            Slot &o = (*SLOT)[atoi(a[2].c_str())];
            if (!o.s || o.m.two != m.two || o.m.cplx != m.cplx || &o == s || !basis_ok(o.m)) return;
            if (o.m.loose() || m.loose()) return;
            ref2 = reference(o.m);
        }
        if (c == "q" && a[1] == "any") {
            const Obs &r = reference(m);
            for (auto &l : r.labels)
                if (l.find(':') == std::string::npos || l.find("G") != std::string::npos) return;
        }
        if (c == "canon") { // of vectors that are not orthonormal: another space
            const Obs &r = reference(m);
            if (r.ok && (r.P * r.P - r.P).cwiseAbs().maxCoeff() > 1e-12) return;
        }
        if (c == "rotate") {
            if (!m.sym.empty() || m.rotated || !m.pend.empty() || m.loose() || m.sum[0]) return;
            for (auto &b : m.basis)
                if (kind_of(b[0]) == "m") return;
            for (auto &e : m.pend)
                if (e.first == "m") return;
            for (auto &t : m.trans)
                if (t[0] == "constrain" || kind_of(t[0]) == "m") return;
            if (m.two) {
                for (auto &b : m.basis)
                    if (b[0] == "e") return;
                for (auto &k : m.kid) {
                    const Obs &r = reference(*k);
                    if (!r.ok || std::abs(r.P.trace().real() - double(r.labels.size())) > 1e-6) return;
                    for (auto &l : r.labels) {
                        StateOne st = one_state(l);
                        if (st.isArtificial()) return;
                        for (float mm = -st.getJ(); mm <= st.getJ(); ++mm)
                            if (std::find(r.labels.begin(), r.labels.end(), label(StateOne(st.getSpecies(), st.getN(), st.getL(), st.getJ(), mm))) == r.labels.end()) return;
                    }
                }
            } else
                for (auto &b : m.basis)
                    if (b[0] == "add") return;
        }
        if (c == "window") {
            if (!m.diag || m.diag_failed || m.contained != 1 || m.needed || m.canon || m.rotated || m.loose() || m.sum[0] || !m.pend.empty() || m.vague) return;
            const Obs &r = reference(m);
            if (!r.ok) return;
            std::vector<double> gaps; // between well separated groups
            for (size_t i = 1; i < r.ev.size(); i++)
                if (r.ev[i] - r.ev[i - 1] > 10) gaps.push_back((r.ev[i] + r.ev[i - 1]) / 2);
            if (gaps.empty()) return;
            size_t i = size_t(atoi(a[1].c_str())) % (gaps.size() + 1), j = size_t(atoi(a[2].c_str())) % (gaps.size() + 1);
            if (i > j) std::swap(i, j);
            if (i == 0 && j == gaps.size()) j--;
            a = {"window", i == 0 ? "-1e300" : num(gaps[i - 1]), j == gaps.size() ? "1e300" : num(gaps[j])};
            what_kind = 3;
        }
        if (c == "constrain") {
            if (m.diag || m.canon || m.rotated || !m.pend.empty() || m.vague || (m.two && !m.plain_kids())) return;
            const Obs &r = reference(m);
            if (!r.ok || r.cols < 2) return;
            std::set<int> seen;
            Words v{"constrain"};
            for (size_t i = 1; i < a.size(); i++) {
                int k = atoi(a[i].c_str()) % r.cols;
                if (seen.insert(k).second) v.push_back(std::to_string(k));
            }
            if (v.size() < 2) return;
            a = v;
        }
        if (what_kind >= 2) {
            b_ok = basis_ok(m);
            ref = reference(m);
            if (c == "q" && what_kind == 3 && !ref.ok) what_kind = 2; // there is no state to ask about
        }
        log("p%d %s", pid, joined(w).c_str());
    }
    uint64_t f0 = fault_count();
    bool threw = false;
    std::string what, blob;
    Sys *made = nullptr;
    MatrixElementCache *mc = nullptr;
    double v = 0;
    std::vector<std::string> list;
    std::array<std::vector<size_t>, 2> conn;
    C entry(0, 0);
    Obs seen;
    try {
        if (c == "cache") {
            int d = atoi(w[2].c_str());
            mc = d ? new MatrixElementCache(DIRS[d]) : new MatrixElementCache();
        } else if (c == "one")
            made = make_one(a[2] == "c", a[3], (*CACHE)[atoi(a[1].c_str())], a.size() > 4);
        else if (c == "two")
            made = make_two((*SLOT)[atoi(a[2].c_str())].m.cplx, (*SLOT)[atoi(a[2].c_str())].s, (*SLOT)[atoi(a[3].c_str())].s, (*CACHE)[atoi(a[1].c_str())], a.size() > 4);
        else if (c == "copy")
            made = s->s->copy();
        else if (c == "drop")
            delete s->s;
        else if (c == "save")
            blob = s->s->save();
        else if (c == "load") {
            std::string data;
            {
                Quiet q;
                from = (*BLOB)[atoi(a[1].c_str())]; // another process may replace it meanwhile
                data = from.data;
                if (a.size() > 2) data.resize(strtoull(a[2].c_str(), nullptr, 10) % data.size());
            }
            mc = new MatrixElementCache();
            std::unique_ptr<Sys> o(make_one(from.m.cplx, "", mc, false));
            if (from.m.two) {
                std::unique_ptr<Sys> o2(make_one(from.m.cplx, "", mc, false));
                o.reset(make_two(from.m.cplx, o.get(), o2.get(), mc, false));
            }
            o->load(data);
            made = o.release();
        } else if (c == "plus")
            s->s->plus(*(*SLOT)[atoi(a[1].c_str())].s);
        else if (c == "check")
            seen = s->s->observe();
        else if (c == "q") {
            const std::string &k = a[1];
            std::string st, st2;
            {
                Quiet q;
                if (ref.ok && a.size() > 2) st = ref.labels[size_t(atoi(a[2].c_str())) % ref.labels.size()];
                if (ref.ok && a.size() > 3) st2 = ref.labels[size_t(atoi(a[3].c_str())) % ref.labels.size()];
            }
            if (k == "states") list = s->s->states();
            else if (k == "num") v = double(s->s->num_states()) * 100000 + double(s->s->num_vectors());
            else if (k == "main") list = s->s->main_states();
            else if (k == "conn") conn = s->s->connections(*(*SLOT)[atoi(a[2].c_str())].s);
            else if (k == "shape") {
                auto x = s->s->shape();
                v = double(x.first) * 100000 + double(x.second);
            } else if (k == "indices") v = s->s->overlap_indices(ref.labels.size());
            else if (st.empty()) s->s->states();
            else if (k == "overlap") v = s->s->overlap(st);
            else if (k == "any") v = s->s->overlap_any(st, atoi(a[3].c_str()) % 2);
            else if (k == "overlapr") v = s->s->overlap(st, 0, 0.3, 0);
            else if (k == "index") {
                v = double(s->s->index(st));
                list = s->s->states();
            } else if (k == "bvec") v = double(s->s->vector_index(st));
            else if (k == "entry") entry = s->s->entry(st, st2);
        } else
            s->s->apply(a);
    } catch (std::exception &e) {
        Quiet q;
        threw = true;
        what = e.what();
    }
    Quiet q;
    bool faulted = fault_count() > f0 && excused(pid);
    log("p%d -> %s%s", pid, threw ? what.c_str() : "ok", faulted ? " (fault)" : "");
    probe(threw ? "calls_failed" : "calls");
    if (c == "cache") {
        if (!threw) (*CACHE)[id] = mc;
        else if (!faulted) violation("call-failed", "%s: %s", who.c_str(), what.c_str());
        return;
    }
    if (c == "one" || c == "two" || c == "drop" || c == "save" || c == "copy") {
        if (threw) {
            if (!faulted) violation("call-failed", "%s: %s", who.c_str(), what.c_str());
            return;
        }
        if (c == "drop") *s = Slot();
        else if (c == "save") {
            Blob &b = (*BLOB)[atoi(a[1].c_str())];
            b.have = true;
            b.data = blob;
            b.m = s->m;
            probe("systems_saved");
        } else if (c == "copy") {
            Slot &t = (*SLOT)[atoi(a[1].c_str())];
            t.s = made;
            t.m = s->m;
            t.owner = pid;
            probe("systems_copied");
        } else {
            s->s = made;
            s->m = Model();
            s->m.mem = a.size() > 4;
            if (c == "one") {
                s->m.cplx = a[2] == "c";
                s->m.species = a[3];
            } else {
                Slot &x = (*SLOT)[atoi(a[2].c_str())], &y = (*SLOT)[atoi(a[3].c_str())];
                s->m.two = true;
                s->m.cplx = x.m.cplx;
                s->m.kid[0] = std::make_shared<Model>(x.m);
                s->m.kid[1] = std::make_shared<Model>(y.m);
                s->m.same_kid = &x == &y;
            }
            probe(c == "one" ? "atoms" : "pairs");
        }
        return;
    }
    if (c == "load") {
        bool cut = a.size() > 2;
        if (cut && !threw) violation("damaged-transfer-accepted", "%s: a cut-off serialised system was restored without an error", who.c_str());
        if (!cut && threw && !faulted) violation("transfer-failed", "%s: %s", who.c_str(), what.c_str());
        if (!threw) {
            s->s = made;
            s->m = from.m;
            probe("systems_restored");
        }
        return;
    }
    Model &m = s->m;
    if (what_kind == 1) {
        if (must_throw && !threw) violation("refusal-missing", "%s: accepted although it cannot be followed; settings: %s", who.c_str(), m.text().c_str());
        if (threw) {
            bool sym_conflict = is_sym(c) && (c == "refl" || c == "rot"); // incompatible symmetries
            if (!must_throw && !may_throw && !faulted && !sym_conflict) violation("call-failed", "%s: %s; settings: %s", who.c_str(), what.c_str(), m.text().c_str());
            probe("settings_refused");
            return;
        }
        if (c == "add") m.pend["add " + a[1]] = a;
        else if (is_kept(c)) m.pend[c == "norm" ? " norm" : kind_of(c)] = a; // the norm is set first
        else if (is_sym(c)) {
            if ((c == "pairs" || c == "rot") ? a.size() < 2 : a[1] == "na") m.sym.erase(c);
            else m.sym[c] = a;
        } else {
            if (m.two) distance_model(m, a);
            else m.par[c] = a;
            m.touched = true;
            m.needed = true;
        }
        return;
    }
    if (c == "plus") {
        Slot &o = (*SLOT)[atoi(a[1].c_str())];
        Model &y = o.m;
        if (must_throw && !threw) violation("refusal-missing", "%s: accepted although the systems do not fit together; settings: %sand %s", who.c_str(), m.text().c_str(), y.text().c_str());
        if (threw && !must_throw && !may_throw && !faulted) violation("call-failed", "%s: %s; settings: %sand %s", who.c_str(), what.c_str(), m.text().c_str(), y.text().c_str());
        for (Slot *x : {s, &o}) {
            Model &z = x->m;
            if (!threw || (!z.built && x->s->exists())) flush(z);
            else if (threw && faulted && z.built && !z.pend.empty()) z.vague = true;
            else if (!faulted) flush(z);
        }
        probe(threw ? "sums_refused" : "sums");
        if (threw) return;
        Model t = m;
        t.sum[0] = std::make_shared<Model>(m);
        t.sum[1] = std::make_shared<Model>(y);
        t.basis.clear();
        t.trans.clear();
        t.touched = false;
        t.diag = m.diag || y.diag;
        t.diag_failed = t.diag;
        for (auto &e : y.sym) t.sym[e.first] = e.second;
        m = t;
        return;
    }
    if (c == "q" && a[1] == "conn") {
        Slot &o = (*SLOT)[atoi(a[2].c_str())];
        if (!threw || (!o.m.built && o.s->exists())) flush(o.m);
        else if (o.m.built && !o.m.pend.empty()) o.m.vague = true;
    }
    // builds, queries
    bool should = what_kind == 2 ? b_ok : ref.ok;
    if (c == "build" && a[1] == "i" && !ref.ok) should = !threw; // may or may not notice
    if (c == "q" && a[1] == "main" && m.canon && threw && what.find("without a main state") != std::string::npos) return; // states outside of the restricted space
    if (threw) {
        if (!what.compare(0, 13, "inconsistent:")) violation("inconsistent-system", "%s: %s; settings: %s", who.c_str(), what.c_str(), m.text().c_str());
        if (should && !faulted) violation("call-failed", "%s failed although an undisturbed system with these settings can be built: %s; settings: %s", who.c_str(), what.c_str(), m.text().c_str());
        probe("builds_failed");
        if (faulted) probe("builds_disturbed");
        if (!m.built && s->s->exists() && b_ok) {
            flush(m);
        } else if (m.built && !m.pend.empty() && (faulted || b_ok)) // otherwise the basis stays what it was
            m.vague = true;
        if (what_kind == 3 && m.needed) m.contained = 2;
        if (c == "diag") m.diag = m.diag_failed = true; // unknown
        if (c == "canon") m.canon = true;
        return;
    }
    if (!should) violation("impossible-build", "%s succeeded although an undisturbed system with these settings cannot be built (%s); settings: %s", who.c_str(), ref.what.c_str(), m.text().c_str());
    if (b_ok) flush(m);
    if (what_kind == 3 && !(c == "build" && a[1] == "i")) {
        if (m.needed) {
            m.contained = 1;
            m.diag = false;
        }
        m.needed = false;
    }
    if (c == "diag") {
        m.diag = true;
        m.diag_failed = false;
        double od = s->s->off_diagonal();
        if (!(od <= 1e-11 * std::max(1., ref.scale))) violation("not-diagonal", "%s: the largest off-diagonal element is %g; settings: %s", who.c_str(), od, m.text().c_str());
    }
    if (c == "canon") m.canon = true;
    if ((c == "canon" || c == "unit") && !faulted) { // every vector stands for one state
        try {
            Eigen::MatrixXcd b = s->s->matrix(true), h = s->s->matrix(false), eb = Eigen::MatrixXcd::Identity(b.rows(), b.rows()), eh = h;
            bool known = c == "unit" || !m.loose();
            if (c == "canon" && known) {
                auto names = s->s->states();
                std::map<std::string, int> pos;
                for (size_t i = 0; i < ref.labels.size(); i++) pos[ref.labels[i]] = int(i);
                eh = eb;
                for (size_t i = 0; i < names.size(); i++)
                    for (size_t j = 0; j < names.size(); j++)
                        if (pos.count(names[i]) && pos.count(names[j])) {
                            eb(i, j) = ref.P(pos[names[i]], pos[names[j]]);
                            eh(i, j) = ref.H(pos[names[i]], pos[names[j]]);
                        }
            }
            if (known && (b.cols() != b.rows() || h.rows() != b.rows() || !((b - eb).cwiseAbs().maxCoeff() < 1e-8) ||
                          !((h - eh).cwiseAbs().maxCoeff() < 1e-11 * std::max(1., ref.scale) * (10 + double(b.rows())))))
                violation("not-canonical", "%s: the basis vectors (%ld states, %ld vectors) do not stand for single states; settings: %s", who.c_str(), long(b.rows()), long(b.cols()), m.text().c_str());
            probe("canonical_compared");
        } catch (std::exception &) { // cannot be built any more, e.g. because of a fault
        }
    }
    if (c == "unit") {
        m.unit = true;
        m.contained = 1;
        m.at_rot = m.frozen() ? std::map<std::string, Words>() : m.par;
        m.touched = false;
        m.trans.push_back(a);
        probe("unitarized");
    }
    if (c == "window") {
        m.rotated = m.fixed = true;
        m.at_rot = m.par;
        m.touched = false;
        m.trans.push_back(a);
        probe("eigenvectors_selected");
    }
    if (c == "rotate") {
        m.rotated = true;
        m.at_rot = m.frozen() ? std::map<std::string, Words>() : m.par;
        m.touched = false;
        m.trans.push_back(a);
        probe("rotations");
    }
    if (c == "constrain") {
        m.trans.push_back(a);
        probe("constrained");
    }
    if (c == "check") {
        compare(seen, ref, who.c_str(), m);
        compare_selected(seen, who.c_str(), m);
        compare_states(seen, who.c_str(), m);
        probe("systems_compared");
    }
    if (c == "q" && ref.ok) {
        const std::string &k = a[1];
        if (k == "states") {
            std::set<std::string> x(list.begin(), list.end()), y(ref.labels.begin(), ref.labels.end());
            if (x != y || list.size() != ref.labels.size()) violation("wrong-answer", "%s: %zu states instead of %zu; settings: %s", who.c_str(), list.size(), ref.labels.size(), m.text().c_str());
        }
        if (k == "main") {
            for (auto &x : list)
                if (std::find(ref.labels.begin(), ref.labels.end(), x) == ref.labels.end()) violation("wrong-answer", "%s: the main state %s is no state; settings: %s", who.c_str(), x.c_str(), m.text().c_str());
            if (!m.canon && int(list.size()) != ref.cols) violation("wrong-answer", "%s: %zu main states of %d vectors; settings: %s", who.c_str(), list.size(), ref.cols, m.text().c_str());
        }
        if (k == "indices" && !(std::fabs(v - ref.P.trace().real()) < 1e-8 * double(10 + ref.cols)))
            violation("wrong-answer", "%s: the overlaps with all states sum up to %.12g instead of %.12g; settings: %s", who.c_str(), v, ref.P.trace().real(), m.text().c_str());
        if (k == "conn" && ref2.ok) {
            bool same = conn[0].size() == conn[1].size() && conn[0].size() <= size_t(std::min(ref.cols, ref2.cols));
            for (int i = 0; i < 2 && same && !m.canon && !(*SLOT)[atoi(a[2].c_str())].m.canon; i++) {
                std::set<size_t> x(conn[i].begin(), conn[i].end());
                same = x.size() == conn[i].size() && (x.empty() || *x.rbegin() < size_t(i ? ref2.cols : ref.cols));
            }
            auto plain = [](const Obs &r) { // every state by itself
                return r.cols == int(r.labels.size()) && (r.P - Eigen::MatrixXcd::Identity(r.cols, r.cols)).cwiseAbs().maxCoeff() < 1e-9;
            };
            if (same && m.vectors_are_states() && (*SLOT)[atoi(a[2].c_str())].m.vectors_are_states() && plain(ref) && plain(ref2)) {
                size_t n = 0;
                for (auto &x : ref.labels) n += std::count(ref2.labels.begin(), ref2.labels.end(), x);
                same = n == conn[0].size();
                probe("connections_compared");
            }
            if (!same) violation("wrong-answer", "%s: %zu and %zu connections of %d with %d vectors; settings: %s", who.c_str(), conn[0].size(), conn[1].size(), ref.cols, ref2.cols, m.text().c_str());
        }
        if (k == "num" || k == "shape") {
            double e = double(ref.labels.size()) * 100000 + (m.canon ? v - std::floor(v / 100000) * 100000 : ref.cols);
            if (e != v) violation("wrong-answer", "%s: sizes %g instead of %g; settings: %s", who.c_str(), v, e, m.text().c_str());
        }
        if (a.size() > 2 && k != "conn") {
            size_t i = size_t(atoi(a[2].c_str())) % ref.labels.size();
            if (k == "overlap" && std::fabs(v - (ref.P.row(i).squaredNorm() > 0 ? ref.P(i, i).real() : 0)) > 1e-8)
                violation("wrong-answer", "%s: the overlaps with %s sum up to %.12g instead of %.12g; settings: %s", who.c_str(), ref.labels[i].c_str(), v, ref.P(i, i).real(), m.text().c_str());
            if (k == "any") {
                double e = 0;
                for (size_t j = 0; j < ref.labels.size(); j++)
                    if (like(ref.labels[j], ref.labels[i], atoi(a[3].c_str()) % 2)) e += ref.P(j, j).real();
                if (!(std::fabs(v - e) < 1e-8 * double(10 + ref.cols)))
                    violation("wrong-answer", "%s: the overlaps with states like %s sum up to %.12g instead of %.12g; settings: %s", who.c_str(), ref.labels[i].c_str(), v, e, m.text().c_str());
            }
            if (k == "index" && (size_t(v) >= list.size() || list[size_t(v)] != ref.labels[i])) violation("wrong-answer", "%s: index %g does not belong to %s; settings: %s", who.c_str(), v, ref.labels[i].c_str(), m.text().c_str());
            if (k == "entry" && a.size() > 3) {
                size_t j = size_t(atoi(a[3].c_str())) % ref.labels.size();
                C e = ref.H(i, j);
                double d = std::min(std::abs(entry - e), std::abs(entry - std::conj(e)));
                if (!(d < 1e-11 * std::max(1., ref.scale) * (10 + double(ref.labels.size()))))
                    violation("wrong-answer", "%s: <%s|H|%s> = %.12g%+.12gi instead of %.12g%+.12gi; settings: %s", who.c_str(), ref.labels[i].c_str(), ref.labels[j].c_str(), entry.real(), entry.imag(), e.real(), e.imag(), m.text().c_str());
            }
        }
        probe("queries_compared");
    }
}
void run_phase(const std::map<int, std::vector<Words>> &procs, bool faults) {
    if (procs.empty()) return;
    faults_enable(faults);
    std::vector<int> pids;
    for (auto &p : procs) {
        auto *cmds = new std::vector<Words>(p.second);
        pids.push_back(start_process([cmds]() {
            for (auto &c : *cmds) command(c);
            return 0;
        }));
    }
    for (int pid : pids) {
        ProcInfo i = wait_process(pid);
        Quiet q;
        if (i.how != Exit::Done) violation("crash", "process %d ended abnormally: %s", pid, i.what.c_str());
    }
    faults_enable(false);
    if (procs.size() > 1) probe("concurrent_phases");
}
void execute(const Plan &p) {
    SLOT = new std::map<int, Slot>;
    BLOB = new std::map<int, Blob>;
    CACHE = new std::map<int, MatrixElementCache *>;
    {
        Quiet q;
        gsl_set_error_handler(gsl_fails);
        for (int i = 1; i < 3; i++) fs_mkdirs(DIRS[i]);
    }
    std::map<int, std::vector<Words>> procs;
    for (auto &op : p.ops) {
        auto w = words(op);
        if (w[0] == "p" && w.size() > 2) {
            Quiet q;
            procs[atoi(w[1].c_str())].push_back(Words(w.begin() + 2, w.end()));
        } else if (w[0] == "phase") {
            run_phase(procs, true);
            Quiet q;
            procs.clear();
        }
    }
    run_phase(procs, true);
    {
        Quiet q;
        procs.clear();
        for (auto &s : *SLOT)
            if (s.second.s) procs[1].push_back({"check", std::to_string(s.first)});
        // an object whose settings cannot be built is given up
    }
    run_phase(procs, false);
}
void warm() {
    gsl_set_error_handler(gsl_fails);
    REFCACHE = new MatrixElementCache();
    MEMO = new std::map<std::string, Obs>;
    for (const char *sp : {"Rb", "Cs"}) {
        std::vector<StateOne> v;
        for (int n = 10; n <= 11; n++)
            for (int l = 0; l <= 2; l++)
                for (float j = std::fabs(l - 0.5f); j <= l + 0.5f; ++j) v.push_back(StateOne(sp, n, l, j, 0.5f));
        for (auto &x : v)
            for (auto &y : v)
                for (int k = 0; k <= 4; k++) {
                    try {
                        REFCACHE->getRadial(x, y, k);
                    } catch (std::exception &) {
                    }
                }
    }
}
Warmup w20(warm);

// ---------------------------------------------------------------- generators
struct Gen {
    Plan &p;
    Rng &r;
    bool thorough;
    std::string sp[2];
    int procs = 0, nblobs = 3;
    struct Info {
        bool two = false, cplx = false;
    };
    std::map<int, Info> info;
    std::string focus; // something this plan does more often
    Gen(Plan &pp, Rng &rr, bool t) : p(pp), r(rr), thorough(t) {
        knob(p, "p_io", pick(r, {0.02, 0.1}));
        focus = r.pick(std::vector<std::string>{"", "", "", "", "canon", "unit", "impossible", "impossible", "rotate", "q"});
        knob(p, "p_sync", 0.02);
        knob(p, "p_mem", 0);
        knob(p, "max_steps", 100000000);
        sp[0] = r.chance(0.7) ? "Rb" : "Cs";
        sp[1] = r.chance(0.8) ? sp[0] : "Rb";
    }
    std::string n2(double d) {
        char b[40];
        snprintf(b, sizeof b, "%.6g", d);
        return b;
    }
    void emit(int proc, const std::string &c) { p.ops.push_back("p " + std::to_string(proc) + " " + c); }
    std::string field(bool y, double scale) {
        auto one = [&]() { return r.chance(0.35) ? std::string("0") : n2((r.unit() - 0.5) * scale); };
        std::string a = one(), b = y ? one() : "0", c = one();
        return a + " " + b + " " + c;
    }
    // restrictions of a new atom
    void atom(int proc, int slot, int cache) {
        std::string s = std::to_string(slot);
        bool cplx = r.chance(0.4);
        for (auto &i : info) cplx = i.second.cplx; // one scalar type per run, so that pairs are possible
        info[slot] = {false, cplx};
        emit(proc, "one " + s + " " + std::to_string(cache) + " " + (cplx ? "c " : "r ") + sp[r.below(2)] + (r.chance(0.12) ? " m" : ""));
        int n = r.range(10, 11);
        emit(proc, r.chance(0.6) ? "nr " + s + " " + std::to_string(n) + " " + std::to_string(n) : r.chance(0.5) ? "n " + s + " 10 11" : "n " + s + " " + std::to_string(n));
        if (r.chance(0.05)) emit(proc, "l " + s + " 15"); // nothing fits
        else emit(proc, r.chance(0.5) ? "lr " + s + " 0 1" : r.chance(0.5) ? "l " + s + " 0 1" : r.chance(0.5) ? "l " + s + " 1 2" : "l " + s + " 0 2");
        if (r.chance(0.6)) emit(proc, r.chance(0.5) ? "j " + s + " 0.5" : "jr " + s + " 0.5 1.5");
        if (r.chance(0.35)) emit(proc, r.chance(0.4) ? "m " + s + " 0.5 -0.5" : r.chance(0.5) ? "mr " + s + " -0.5 0.5" : "m " + s + " 0.5");
        if (r.chance(0.1)) emit(proc, "e " + s + " -" + n2(60000 + r.unit() * 40000) + " -" + n2(20000 + r.unit() * 15000));
        if (r.chance(0.06)) emit(proc, "norm " + s + (r.chance(0.5) ? " 0.3" : " 0.1"));
        if (r.chance(0.08)) emit(proc, "add " + s + " G");
        if (r.chance(0.05)) emit(proc, "add " + s + " " + sp[0] + ":12:0:0.5:0.5");
        if (cplx && r.chance(0.2)) emit(proc, "refl " + s + " " + (r.chance(0.5) ? "even" : "odd"));
        if (r.chance(0.1)) emit(proc, r.chance(0.6) ? "rot " + s + " 0.5 -0.5" : "rot " + s + " 0.5");
    }
    std::string setting(int slot) {
        std::string s = std::to_string(slot);
        bool c = info[slot].cplx;
        if (!info[slot].two) {
            switch (r.below(9)) {
            case 0: case 1: case 2: return "efield " + s + " " + field(c || r.chance(0.06), 60);
            case 3: case 4: return "bfield " + s + " " + field(c || r.chance(0.06), 2000);
            case 5: return "dia " + s + " " + std::to_string(r.below(2));
            case 6: return "charge " + s + " " + std::to_string(r.range(-1, 1));
            case 7: return "order " + s + " " + std::to_string(r.range(0, 3));
            default: return "iondist " + s + " " + n2(0.3 + r.unit());
            }
        }
        switch (r.below(9)) {
        case 0: case 1: return "dist " + s + " " + n2(0.2 + r.unit());
        case 2: case 3: return "vec " + s + " " + (r.chance(0.5) ? "0" : n2(r.unit() - 0.5)) + " " + (c && r.chance(0.3) ? n2(r.unit() - 0.5) : "0") + " " + n2(0.2 + r.unit());
        case 4: return "angle " + s + " " + (r.chance(0.3) ? "0" : n2(r.unit() * 3));
        case 5: case 6: return "ord " + s + " " + std::to_string(r.range(3, r.chance(0.3) ? 5 : 4));
        case 7: return "gt " + s + " " + std::to_string(r.below(2));
        default: return "surf " + s + " " + (r.chance(0.5) ? "max" : n2(0.3 + r.unit()));
        }
    }
    std::string restriction(int slot) {
        std::string s = std::to_string(slot);
        switch (r.below(6)) {
        case 0: return "l " + s + " 0";
        case 1: return "l " + s + " 0 1";
        case 2: return "j " + s + " 0.5";
        case 3: return "m " + s + " 0.5" + (r.chance(0.5) ? " -0.5" : "");
        case 4: return "lr " + s + " 1 2";
        default: return "n " + s + " " + std::to_string(r.range(10, 11));
        }
    }
    std::string other(int slot) { // another object of the same family
        std::vector<int> v;
        for (auto &i : info)
            if (i.first / 10 == slot / 10) v.push_back(i.first);
        return std::to_string(r.pick(v));
    }
    std::string act(int slot, double transfer) {
        std::string s = std::to_string(slot);
        double x = r.unit();
        if (x < transfer) return "save " + s + " " + std::to_string(r.below(uint64_t(nblobs)));
        if (!focus.empty() && r.chance(0.12)) {
            if (focus == "canon" || focus == "unit" || focus == "impossible") return focus + " " + s;
            if (focus == "rotate") return "rotate " + s + " 0 " + n2(r.unit()) + " 0";
            return query(slot);
        }
        x = r.unit();
        if (x < 0.34) return setting(slot);
        if (x < 0.39) return restriction(slot);
        if (x < 0.40) return "norm " + s + " " + r.pick(std::vector<std::string>{"0", "0.3", "0.1"});
        if (x < 0.50) return "build " + s + " " + (r.chance(0.3) ? "b" : r.chance(0.5) ? "i" : "h");
        if (x < 0.62 && r.chance(0.2)) return "diagwin " + s;
        if (x < 0.62) return "diag " + s;
        if (x < 0.65 && r.chance(0.4)) return "window " + s + " " + std::to_string(r.below(20)) + " " + std::to_string(r.below(20));
        if (x < 0.645) return "canon " + s;
        if (x < 0.66) return "unit " + s;
        if (x < 0.70) return "constrain " + s + " " + std::to_string(r.below(20)) + " " + std::to_string(r.below(20)) + " " + std::to_string(r.below(20)) + " " + std::to_string(r.below(20));
        if (x < 0.74) return "rotate " + s + " " + (info[slot].cplx && r.chance(0.6) ? n2(r.unit()) : "0") + " " + n2(r.unit()) + " 0";
        if (x < 0.78) { // symmetries after the build are refused, before it they count
            if (!info[slot].two) return r.chance(0.5) ? "rot " + s + " 0.5" : "refl " + s + " even";
            return r.chance(0.3) ? "perm " + s + " " + (r.chance(0.5) ? "even" : "odd") : r.chance(0.4) ? "inv " + s + " " + (r.chance(0.5) ? "even" : "odd") : "rot " + s + " 0" + (r.chance(0.5) ? " 1" : "");
        }
        if (x < 0.92) return query(slot);
        return "check " + s;
    }
    std::string query(int slot) {
            std::string s = std::to_string(slot);
            static const char *q[] = {"states", "num", "main", "overlap", "overlapr", "index", "bvec", "entry", "any", "shape", "indices"};
            if (r.chance(0.1)) return "q " + s + " conn " + other(slot);
            return "q " + s + " " + q[r.below(11)] + " " + std::to_string(r.below(60)) + " " + std::to_string(r.below(60));
    }
    // two systems with different parts of the basis, which are put together
    void twins(int pr, int a, int b) {
        std::string s = std::to_string(a), t = std::to_string(b);
        emit(pr, "copy " + s + " " + t);
        info[b] = info[a];
        auto both = [&](const std::string &c, const std::string &x, const std::string &y) {
            emit(pr, c + " " + s + " " + x);
            emit(pr, c + " " + t + " " + y);
        };
        if (info[a].two) {
            switch (r.below(4)) {
            case 0: both("perm", "even", "odd"); break;
            case 1: both("inv", "even", "odd"); break;
            case 2: both("rot", "0", "1 -1"); break;
            default: both("l", "0", "1"); break;
            }
        } else {
            switch (r.below(5)) {
            case 0: both("m", "0.5", "-0.5"); break;
            case 1: both("rot", "0.5", "-0.5"); break;
            case 2: both("refl", "even", "odd"); break;
            case 3: both("l", "0", "1"); break;
            default: both("j", "0.5", "1.5"); break;
            }
        }
        for (int i = r.range(0, 3); i > 0; i--) {
            std::string c = setting(a);
            auto w = words(c);
            emit(pr, c);
            if (r.chance(0.93)) {
                w[1] = t;
                emit(pr, joined(w));
            }
        }
        for (int i = r.range(0, 2); i > 0; i--) {
            std::string c = r.chance(0.5) ? "build " : "diag ", k = c == "diag " ? "" : r.chance(0.5) ? " h" : " b";
            if (r.chance(0.9)) emit(pr, c + s + k);
            if (r.chance(0.9)) emit(pr, c + t + k);
        }
        emit(pr, "plus " + s + " " + t);
    }
    int alloc(int fam) { // a free slot of a family
        for (int i = fam * 10; i < fam * 10 + 9; i++)
            if (!info.count(i)) return i;
        return -1;
    }
    void phases(int k, int fams, int len, double transfer) {
        std::map<int, int> caches;
        for (int ph = 0; ph < k; ph++) {
            int np = r.range(1, fams);
            procs += np;
            for (int f = 0; f < fams; f++) {
                int pr = f % np;
                if (ph == 0) {
                    emit(pr, "cache " + std::to_string(f) + " " + std::to_string(r.chance(0.25) ? 0 : r.range(1, 2)));
                    atom(pr, alloc(f), f);
                }
                for (int i = r.range(2, len); i > 0; i--) {
                    std::vector<int> mine;
                    for (auto &x : info)
                        if (x.first / 10 == f) mine.push_back(x.first);
                    int s = r.pick(mine);
                    int t = alloc(f);
                    double x = r.unit();
                    if (t >= 0 && x < 0.04) atom(pr, t, f);
                    else if (t >= 0 && x > 0.965) {
                        if (r.chance(0.6)) {
                            atom(pr, t, f);
                            s = t;
                            t = alloc(f);
                        }
                        if (t >= 0) twins(pr, s, t);
                    } else if (x > 0.955) emit(pr, "plus " + std::to_string(s) + " " + other(s));
                    else if (t >= 0 && x < 0.10) {
                        std::vector<int> ones;
                        for (int m : mine)
                            if (!info[m].two) ones.push_back(m);
                        int o1 = r.pick(ones), o2 = r.chance(0.75) ? o1 : r.pick(ones);
                        info[t] = {true, info[o1].cplx};
                        emit(pr, "two " + std::to_string(t) + " " + std::to_string(f) + " " + std::to_string(o1) + " " + std::to_string(o2) + (r.chance(0.1) ? " m" : ""));
                        if (r.chance(0.15)) emit(pr, "perm " + std::to_string(t) + " " + (r.chance(0.5) ? "even" : "odd"));
                        if (r.chance(0.15)) emit(pr, "inv " + std::to_string(t) + " " + (r.chance(0.5) ? "even" : "odd"));
                        if (r.chance(0.1)) emit(pr, "rot " + std::to_string(t) + " 0");
                        if (r.chance(0.1)) {
                            std::string c = "pairs " + std::to_string(t);
                            for (int z = r.range(2, 9); z > 0; z--) c += " " + std::to_string(r.below(12)) + ":" + std::to_string(r.below(12));
                            emit(pr, c);
                        }
                        if (r.chance(0.7)) emit(pr, "dist " + std::to_string(t) + " " + n2(0.2 + r.unit()));
                        if (r.chance(0.3)) emit(pr, setting(t));
                    } else if (t >= 0 && x < 0.16) {
                        info[t] = info[s];
                        emit(pr, "copy " + std::to_string(s) + " " + std::to_string(t));
                    } else if (t >= 0 && x < 0.16 + transfer) {
                        // restored objects may be of any kind: the family's scalar is the same, the kind is found out at run time
                        info[t] = info[s];
                        emit(pr, "load " + std::to_string(t) + " " + std::to_string(r.below(uint64_t(nblobs))) + (r.chance(0.12) ? " " + std::to_string(r.below(1000000)) : ""));
                    } else
{
                        std::string c = act(s, transfer);
                        if (c.compare(0, 7, "diagwin") == 0) {
                            emit(pr, "diag " + std::to_string(s));
                            emit(pr, "window " + std::to_string(s) + " " + std::to_string(r.below(20)) + " " + std::to_string(r.below(20)));
                            c = setting(s);
                        } else if (c.compare(0, 10, "impossible") == 0) { // nothing is left, which is refused; then it is taken back
                            std::string o = std::to_string(s);
                            emit(pr, "m " + o + " 9.5");
                            for (int k = r.range(1, 2); k > 0; k--) emit(pr, r.pick(std::vector<std::string>{"build " + o + " h", "build " + o + " b", "diag " + o, "check " + o}));
                            emit(pr, "m " + o + " " + r.pick(std::vector<std::string>{"0.5", "0.5 -0.5", "-1.5 -0.5 0.5 1.5"}));
                            if (r.chance(0.5)) emit(pr, setting(s));
                            c = "check " + o;
                        }
                        emit(pr, c);
                    }
                }
            }
            p.ops.push_back("phase");
        }
    }
};
uint64_t log_uniform(Rng &r, double hi) { return uint64_t(std::exp(r.unit() * std::log(hi))) + r.below(3); }
void errors(Plan &p, Rng &r, int procs, int n) {
    static const char *cls[] = {"write", "write", "read", "open", "sync", "lock", "any", "alloc", "alloc", "alloc"};
    for (int i = 0; i < n; i++) {
        std::string s = cls[r.below(10)];
        const char *act = s == "write" ? (r.chance(0.5) ? "enospc" : r.chance(0.4) ? "short" : "eio") : s == "alloc" ? "enomem" : s == "open" && r.chance(0.3) ? "emfile" : "eio";
        add_fault(p, s.c_str(), r.range(1, procs), s == "alloc" ? log_uniform(r, 60000) : log_uniform(r, s == "write" ? 150 : 80), r.chance(0.6) ? 1 : r.range(2, 40), act, r.range(0, 3000));
    }
}
void gen_c20(Plan &p, Rng &r, bool thorough) {
    Gen g(p, r, thorough);
    g.phases(r.chance(0.8) ? 1 : 2, r.chance(0.85) ? 1 : 2, thorough ? 26 : 18, 0);
    if (r.chance(0.55)) errors(p, r, g.procs, r.range(1, 3));
}
void gen_c21(Plan &p, Rng &r, bool thorough) {
    Gen g(p, r, thorough);
    g.phases(r.range(2, 4), r.chance(0.6) ? 1 : 2, thorough ? 16 : 11, 0.12);
    if (r.chance(0.2)) errors(p, r, g.procs, 1);
}
Register r20({"c20_histories", "C20", gen_c20, execute, 1});
Register r21({"c21_transfer", "C21", gen_c21, execute, 1});
} // namespace
