// C21: names, parsing, formatting and text encodings.
#include "../pbt.h"
#include "../poly_gen.h"
#include <Eigen/SparseCore>
#include <cmath>
#include <optional>
#include "scenarios/algebraic/name_table.h"
#include "scenarios/contextual_os.h"
#include "scenarios/derived/derived_context.h"
#include "scenarios/inflation/observable_variant_index.h"
#include "scenarios/locality/locality_operator_formatter.h"
#include "scenarios/locality/party.h"
#include "scenarios/symmetrized/group.h"
#include "scenarios/symmetrized/representation.h"
#include "scenarios/symmetrized/symmetrized_matrix_system.h"
#include "scenarios/derived/symbol_table_map.h"
#include "scenarios/derived/lu_map_core_processor.h"
#include "utilities/alphabetic_namer.h"
#include "utilities/utf_conversion.h"

using namespace Moment;
using namespace model;

namespace {
    // ---- reading text ------------------------------------------------------------------------------------------------
    struct Reader {
        const std::string& s;
        size_t at = 0;
        explicit Reader(const std::string& text) : s{text} { }
        bool end() const { return at >= s.size(); }
        char peek() const { return end() ? '\0' : s[at]; }
        bool eat(const std::string& what) { if (s.compare(at, what.size(), what) != 0) return false; at += what.size(); return true; }
        bool digit() const { return peek() >= '0' && peek() <= '9'; }
        std::optional<double> number() {     // without sign
            size_t from = at, p = at;
            bool any = false;
            while (p < s.size() && s[p] >= '0' && s[p] <= '9') { ++p; any = true; }
            if (p < s.size() && s[p] == '.') { ++p; while (p < s.size() && s[p] >= '0' && s[p] <= '9') { ++p; any = true; } }
            if (!any) return std::nullopt;
            if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
                size_t q = p + 1;
                if (q < s.size() && (s[q] == '+' || s[q] == '-')) ++q;
                if (q < s.size() && s[q] >= '0' && s[q] <= '9') { while (q < s.size() && s[q] >= '0' && s[q] <= '9') ++q; p = q; }
            }
            at = p;
            return std::strtod(s.substr(from, p - from).c_str(), nullptr);
        }
        std::optional<int64_t> integer() {
            size_t from = at;
            while (digit()) ++at;
            if (from == at) return std::nullopt;
            while (from + 1 < at && s[from] == '0') ++from;
            if (at - from > 18) return std::nullopt;
            return std::strtoll(s.substr(from, at - from).c_str(), nullptr, 10);
        }
        /** [number][i], with optional sign; or "(a + bi)" */
        std::optional<cd> factor() {
            if (eat("(")) {
                bool n1 = eat("-");
                auto a = number();
                if (!a || !eat(" + ")) return std::nullopt;
                bool n2 = eat("-");
                auto b = number();
                if (!b || !eat("i)")) return std::nullopt;
                return cd{n1 ? -*a : *a, n2 ? -*b : *b};
            }
            double sign = eat("-") ? -1 : 1;
            auto n = number();
            bool i = eat("i");
            if (!n && !i && sign > 0) return std::nullopt;
            double v = sign * n.value_or(1.0);
            return i ? cd{0, v} : cd{v, 0};
        }
    };
    bool near(cd a, cd b) { return std::abs(a - b) <= 2e-5 * std::max(std::abs(a), std::abs(b)) + 1e-12; }

    /** Names of operators as a user reads them. */
    using Lexicon = std::map<std::string, int>;
    /** [sign]["<"]name(";"name)*[">"]; or 0, or [-][i][1]. 'glued' if names follow each other without separator. */
    std::optional<Word> read_word(Reader& r, const Lexicon& lex, bool braces, bool glued) {
        Word w;
        if (r.eat("0")) { w.zero = true; return w; }
        w.sign = r.eat("-") ? 2 : 0;
        auto read_names = [&]() -> bool {
            while (true) {
                // the longest name that fits
                size_t best = 0;
                int op = -1;
                for (auto& [name, o] : lex) if (name.size() > best && r.s.compare(r.at, name.size(), name) == 0) { best = name.size(); op = o; }
                if (op < 0) return false;
                r.at += best;
                w.ops.push_back(op);
                if (glued ? (r.end() || r.peek() == '>') : !r.eat(";")) return true;
            }
        };
        if (braces) {
            if (r.eat("1")) return w;
            if (r.eat("i")) w.sign += 1;
            if (!r.eat("<")) { if (w.sign & 1) return w; return std::nullopt; }
            if (r.eat("I>")) return w;
            if (!read_names() || !r.eat(">")) return std::nullopt;
            return w;
        }
        if (r.eat("1") && r.end()) return w;
        size_t start = r.at;
        if (r.eat("I") && r.end()) return w;
        r.at = start;
        if (read_names() && r.end()) return w;       // names do not begin with 'i' in these scenarios
        r.at = start;
        w.ops.clear();
        if (!r.eat("i")) return std::nullopt;
        w.sign += 1;
        if (r.end() || (r.eat("I") && r.end())) return w;
        r.at = start + 1;
        if (read_names() && r.end()) return w;
        return std::nullopt;
    }
    bool same(const Word& a, const Word& b) { return a.zero == b.zero && (a.zero || (a.ops == b.ops && (a.sign & 3) == (b.sign & 3))); }
    std::string show(const Word& w) { return w.zero ? "0" : pbt::str("i^", w.sign & 3, " ", text(w.ops)); }

    std::string column(size_t n) {       // as spreadsheets name columns
        std::string s;
        for (size_t k = n + 1; k > 0; k = (k - 1) / 26) s.insert(s.begin(), static_cast<char>('A' + (k - 1) % 26));
        return s;
    }

    struct Words {
        Scene scene;
        Lexicon lex, traditional;
        bool glued = false;
    };
    void read_names(Words& w) {
        auto& s = w.scene;
        for (int o = 0; o < s.n; ++o) {
            switch (s.kind) {
                case LOC: {
                    auto u = static_cast<size_t>(o);
                    auto& l = *s.loc;
                    int p = l.party_of[u], before = 0;
                    for (int q = 0; q < p; ++q) before += static_cast<int>(l.outcomes[static_cast<size_t>(q)].size());
                    int m = l.mmt_of[u] - before;
                    w.lex[column(static_cast<size_t>(p)) + "." + static_cast<char>('a' + m) + std::to_string(l.outcome_of[u])] = o;
                    w.traditional[column(static_cast<size_t>(p)) + std::to_string(l.outcome_of[u]) + "|" + std::to_string(m)] = o;
                    break;
                }
                case PAULI:
                    w.lex[std::string(1, "XYZ"[o % 3]) + std::to_string(o / 3 + 1)] = o;
                    w.glued = true;
                    break;
                case INFL: {
                    auto& i = s.net->op(o);
                    std::string t = column(static_cast<size_t>(i.obs));
                    bool brackets = std::any_of(s.net->outcomes.begin(), s.net->outcomes.end(), [](int k) { return k > 2; });
                    if (s.net->outcomes[static_cast<size_t>(i.obs)] > 2) t += std::to_string(i.outcome);
                    if (s.net->level > 1) {
                        if (i.copies.empty()) w.lex[t + (brackets ? "[0]" : "0")] = o;       // shown as its only copy
                        if (brackets) t += "[";
                        for (size_t k = 0; k < i.copies.size(); ++k) t += (k && s.net->level > 9 ? "," : "") + std::to_string(i.copies[k]);
                        if (brackets) t += "]";
                    }
                    w.lex[t] = o;
                    break;
                }
                case ALG:
                case FREE: {
                    w.lex["X" + std::to_string(o + 1)] = o;
                    break;
                }
            }
        }
    }
    Words gen_words(pbt::Case& c, bool system = false) {
        Words w;
        SceneOptions o;
        o.system = system;
        o.max_level = c.chance(15) ? 11 : 3;
        o.max_ops = c.chance(15) ? 40 : 9;
        w.scene = gen_scene(c, o);
        c.note(w.scene.name);
        read_names(w);
        if (w.scene.kind == ALG) {     // conjugate operators have starred names
            w.lex.clear();
            auto& names = dynamic_cast<const Algebraic::AlgebraicContext&>(w.scene.context()).names();
            for (int k = 0; k < w.scene.n; ++k) w.lex[names[k]] = k;
        }
        c.check(w.lex.size() == static_cast<size_t>(w.scene.n) || w.scene.kind == INFL, "two operators have the same name");
        return w;
    }

    std::string utf8(const std::vector<uint32_t>& cps) {
        std::string s;
        for (auto u : cps) {
            auto put = [&](uint32_t b) { s.push_back(static_cast<char>(static_cast<unsigned char>(b))); };
            if (u < 0x80) put(u);
            else if (u < 0x800) { put(0xc0 + u / 64); put(0x80 + u % 64); }
            else if (u < 0x10000) { put(0xe0 + u / 4096); put(0x80 + u / 64 % 64); put(0x80 + u % 64); }
            else { put(0xf0 + u / 262144); put(0x80 + u / 4096 % 64); put(0x80 + u / 64 % 64); put(0x80 + u % 64); }
        }
        return s;
    }
    std::u16string utf16(const std::vector<uint32_t>& cps) {
        std::u16string s;
        for (auto u : cps) {
            if (u < 0x10000) s.push_back(static_cast<char16_t>(u));
            else { s.push_back(static_cast<char16_t>(0xd800 + (u - 0x10000) / 1024)); s.push_back(static_cast<char16_t>(0xdc00 + (u - 0x10000) % 1024)); }
        }
        return s;
    }
    std::string hex(const std::string& s) { std::string r; for (unsigned char ch : s) { char b[4]; std::snprintf(b, 4, "%02x ", ch); r += b; } return r; }
    std::string hex(const std::u16string& s) { std::string r; for (char16_t ch : s) { char b[6]; std::snprintf(b, 6, "%04x ", static_cast<unsigned>(ch)); r += b; } return r; }
    uint32_t gen_code_point(pbt::Case& c) {
        static const std::vector<uint32_t> edges{0, 1, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xff, 0x100, 0x3ff, 0x400, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0xd7fe, 0xd7ff,
            0xe000, 0xe001, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0x3ffff, 0x40000, 0x7ffff, 0x80000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff};
        switch (c.below(6)) {
            case 0: return c.pick(edges);
            case 1: return static_cast<uint32_t>(c.below(0x80));
            case 2: return static_cast<uint32_t>(0x80 + c.below(0x780));
            case 3: { auto u = static_cast<uint32_t>(0x800 + c.below(0xf800)); return u >= 0xd800 && u < 0xe000 ? u - 0x800 : u; }
            case 4: return static_cast<uint32_t>(0x10000 + c.below(0x100000));
            default: return static_cast<uint32_t>('A' + c.below(26));
        }
    }

    // ---- monomials as text ---------------------------------------------------------------------------------------------
    struct Mono { cd factor; int64_t id; bool conj; };
    /** The documented grammar: [factor]#id[*], [-]id[*], or a number with a decimal point. nullopt: not in the grammar. */
    std::optional<Mono> strict_parse(const std::string& s) {
        if (s.empty() || s.size() > 32) return std::nullopt;
        Reader r{s};
        auto hash = s.find('#');
        if (hash != std::string::npos) {
            double f = 1.0;
            if (hash > 0) {
                double sign = r.eat("-") ? -1 : 1;
                auto n = r.number();
                if (!n || r.at != hash) return std::nullopt;
                f = sign * *n;
            }
            r.at = hash + 1;
            auto id = r.integer();
            if (!id || *id > 2147483647) return std::nullopt;
            bool conj = r.eat("*");
            if (!r.end()) return std::nullopt;
            return Mono{f, *id, conj};
        }
        if (s.find('.') != std::string::npos) {
            double sign = r.eat("-") ? -1 : 1;
            auto n = r.number();
            if (!n || !r.end()) return std::nullopt;
            return Mono{sign * *n, 1, false};
        }
        double sign = r.eat("-") ? -1 : 1;
        auto id = r.integer();
        if (!id || *id > 2147483647) return std::nullopt;
        bool conj = r.eat("*");
        if (!r.end()) return std::nullopt;
        return Mono{sign, *id, conj};
    }
    /** Things the grammar does not name, but a reader of numbers may reasonably take. */
    bool lenient(const std::string& s) {
        return s.find_first_of(" \t\n\v\f\r+xXnNiIpP") != std::string::npos;
    }
    double gen_factor_part(pbt::Case& c) {
        switch (c.below(5)) {
            case 0: return static_cast<double>(c.range(-12, 12));
            case 1: return static_cast<double>(c.range(-1000, 1000)) / 8.0;
            case 2: return c.coin() ? 1.0 : -1.0;
            case 3: return std::ldexp(static_cast<double>(c.range(-999, 999)), static_cast<int>(c.range(-30, 40)));
            default: return static_cast<double>(c.range(-9, 9)) / 3.0;
        }
    }
    cd gen_factor(pbt::Case& c) {
        for (int i = 0; i < 10; ++i) {
            double a = gen_factor_part(c), b = gen_factor_part(c);
            cd f = c.chance(55) ? cd{a, 0} : c.coin() ? cd{0, b} : cd{a, b};
            double small = std::min(std::abs(a), std::abs(b));
            if (f.real() != 0 && f.imag() != 0 && small < 1e-3 * std::max(std::abs(a), std::abs(b))) continue;
            if (std::abs(f) > 1e-9) return f;
        }
        return 1.0;
    }

    struct Term { cd factor = 0; bool scalar = false; std::optional<int64_t> id; bool conj = false; std::optional<Word> word; };
    /** Reads sums, such as "2 <A> - i#5* + (1 + 2i)". */
    std::optional<std::vector<Term>> read_sum(const std::string& s, const std::function<bool(Reader&, Term&)>& read_atom, const std::string& join) {
        std::vector<Term> out;
        Reader r{s};
        bool negative = false;
        if (r.eat(" + ")) { } else if (r.eat(" - ")) negative = true;
        while (true) {
            Term t;
            size_t was = r.at;
            auto f = r.factor();
            t.factor = f.value_or(1.0) * (negative ? -1.0 : 1.0);
            bool ended = r.end() || r.s.compare(r.at, 3, " + ") == 0 || r.s.compare(r.at, 3, " - ") == 0;
            if (ended) {
                if (was == r.at) return std::nullopt;
                t.scalar = true;
            } else {
                if (f) (void) r.eat(join);
                if (!read_atom(r, t)) return std::nullopt;
            }
            out.push_back(std::move(t));
            if (r.end()) return out;
            if (r.eat(" + ")) negative = false;
            else if (r.eat(" - ")) negative = true;
            else return std::nullopt;
        }
    }
    bool atom_id(Reader& r, Term& t, bool hash) {
        if (hash && !r.eat("#")) return false;
        t.id = r.integer();
        if (!t.id) return false;
        t.conj = r.eat("*");
        return true;
    }
}

LAW(alphabetic_names, "a name of at least two letters", 20000, 400000) {
    size_t id;
    auto level = [](size_t n) { size_t v = 0; for (size_t k = 0; k < n; ++k) v = (v + 1) * 26; return v; };      // number of names of fewer letters
    size_t len = 1 + c.below(13);
    switch (c.below(3)) {
        case 0: id = c.below(30000); break;
        case 1: id = level(len) + c.below(5) - (len ? 2 : 0); break;
        default: id = level(len - 1) + c.below(level(len) - level(len - 1)); break;
    }
    c.note(pbt::str(id));
    bool upper = c.coin();
    auto name = upper && c.coin() ? AlphabeticNamer{}(id) : c.coin() ? AlphabeticNamer{upper}(id) : AlphabeticNamer::index_to_name(id, upper);
    if (name.size() > 1) c.nontrivial();
    auto want = column(id);
    c.check(AlphabeticNamer::strlen(id) == want.size(), pbt::str("length is said to be ", AlphabeticNamer::strlen(id), " not ", want.size()));
    c.check(AlphabeticNamer::level_offset(len) == level(len), "number of shorter names");
    if (!upper) for (auto& ch : want) ch = static_cast<char>(ch - 'A' + 'a');
    c.check(name == want, "named " + name + " not " + want);
}

LAW(encodings, "a character outside ASCII", 20000, 400000) {
    std::vector<uint32_t> cps;
    for (size_t n = c.below(9); n > 0; --n) cps.push_back(gen_code_point(c));
    auto a = utf8(cps);
    auto b = utf16(cps);
    c.note(hex(b));
    if (std::any_of(cps.begin(), cps.end(), [](auto u) { return u > 0x7f; })) c.nontrivial();
    c.check(UTF16toUTF8Convertor::size_in_utf8(b) == a.size(), "size in UTF-8");
    c.check(UTF8toUTF16Convertor::size_in_utf16(a) == b.size(), "size in UTF-16");
    auto x = UTF16toUTF8Convertor{}(b);
    c.checkf(x == a, [&] { return "to UTF-8: " + hex(x) + "not " + hex(a); });
    auto y = UTF8toUTF16Convertor{}(a);
    c.checkf(y == b, [&] { return "to UTF-16: " + hex(y) + "not " + hex(b); });
    if (std::all_of(cps.begin(), cps.end(), [](auto u) { return u < 0x80; })) {
        c.check(UTF16toUTF8Convertor::convert_as_ascii(b) == a && UTF8toUTF16Convertor::convert_as_ascii(a) == b, "as ASCII");
    }
}

LAW(invalid_encodings, "a broken sequence", 20000, 400000) {
    // valid text, and then something broken: the text before it stays as it is, and nothing is read out of bounds
    std::vector<uint32_t> cps{static_cast<uint32_t>(0x80 + c.below(0x700))};
    for (size_t n = c.below(5); n > 0; --n) cps.push_back(gen_code_point(c));
    auto a = utf8(cps);
    auto b = utf16(cps);
    std::string a2 = a;
    std::u16string b2 = b;
    switch (c.below(3)) {
        case 0: a2 += utf8({static_cast<uint32_t>(0x80 + c.below(0x10ff00))}); a2.pop_back(); break;
        case 1: for (size_t n = 1 + c.below(6); n > 0; --n) a2.push_back(static_cast<char>(static_cast<unsigned char>(128 + c.below(128)))); break;
        default: for (size_t n = 1 + c.below(6); n > 0; --n) a2.push_back(static_cast<char>(static_cast<unsigned char>(c.below(256)))); break;
    }
    for (size_t n = 1 + c.below(4); n > 0; --n) b2.push_back(static_cast<char16_t>(0xd800 + c.below(0x800)));
    c.note(hex(a2) + "| " + hex(b2));
    c.nontrivial();
    auto y = UTF8toUTF16Convertor::convert(std::string(a2));
    c.check(y.size() == UTF8toUTF16Convertor::size_in_utf16(a2), "size of UTF-16");
    c.check(y.compare(0, b.size(), b) == 0, "valid text before is changed (UTF-16)");
    auto x = UTF16toUTF8Convertor::convert(b2);
    c.check(x.size() == UTF16toUTF8Convertor::size_in_utf8(b2), "size of UTF-8");
    c.check(x.compare(0, a.size(), a) == 0, "valid text before is changed (UTF-8)");
}

LAW(parse_monomial, "accepted, or a single edit away from an accepted text", 60000, 1500000) {
    static const std::string alphabet = "0123456789.#*-+e ix";
    std::string s;
    auto digits = [&](size_t most) { std::string d; for (size_t n = 1 + c.below(most); n > 0; --n) d.push_back(static_cast<char>('0' + c.below(10))); return d; };
    auto number = [&] {
        std::string d = c.chance(30) ? "-" : "";
        switch (c.below(4)) {
            case 0: d += digits(3); break;
            case 1: d += digits(3) + "." + digits(4); break;
            case 2: d += "." + digits(3); break;
            default: d += digits(2) + "."; break;
        }
        if (c.chance(15)) d += "e" + std::string(c.coin() ? "-" : "") + digits(2);
        return d;
    };
    auto id = [&] {
        switch (c.below(8)) {
            case 0: return std::string("2147483647");
            case 1: return std::string("2147483648");
            case 2: return digits(12);
            default: return digits(3);
        }
    };
    switch (c.below(5)) {
        case 0: s = id(); break;
        case 1: s = "-" + id(); break;
        case 2: s = "#" + id(); break;
        case 3: s = number() + "#" + id(); break;
        default: s = number(); break;
    }
    if (c.coin()) s += "*";
    bool close = true;
    auto edits = c.below(10) < 5 ? 0 : c.below(3) == 0 ? 2 + c.below(4) : 1;
    if (edits > 1) close = false;
    for (uint64_t k = 0; k < edits; ++k) {
        size_t at = c.below(s.size() + 1);
        switch (c.below(4)) {
            case 0: s.insert(at, 1, alphabet[c.below(alphabet.size())]); break;
            case 1: if (at < s.size()) s.erase(at, 1); break;
            case 2: if (at < s.size()) s[at] = alphabet[c.below(alphabet.size())]; break;
            default: s.insert(at, 1, static_cast<char>(static_cast<unsigned char>(c.below(256)))); break;
        }
    }
    if (c.chance(2)) s.insert(0, std::string(c.below(40), '0'));
    c.note("\"" + s + "\"");
    auto want = strict_parse(s);
    if (want || close) c.nontrivial();
    try {
        Monomial m{s};
        if (!want) {
            c.check(lenient(s) || m.id == 0, "accepted");
            c.check(m.id >= 0, "negative number of a symbol");
            return;
        }
        c.check(m.id == want->id && m.conjugated == want->conj && (m.factor == want->factor || m.id == 0),
                pbt::str("read as ", m.factor.real(), " #", m.id, m.conjugated ? "*" : ""));
        c.check(!m.factor.imag(), "imaginary factor");
    } catch (const Monomial::SymbolParseException& e) {
        bool overflow = want && !std::isfinite(want->factor.real());
        // strtod reports factors too small or too large
        bool tiny = want && want->factor != 0.0 && std::abs(want->factor) < 1e-300;
        c.check(!want || overflow || tiny || (s.find('e') != std::string::npos && want->factor == 0.0), "rejected");
        c.check(std::string(e.what()).find(s.substr(0, std::min<size_t>(s.size(), size_t{Monomial::max_strlen}))) != std::string::npos || s.find('\0') != std::string::npos,
                "the message does not quote the text");
    }
}

LAW(print_monomial, "not a plain symbol", 40000, 800000) {
    cd f = gen_factor(c);
    auto id = static_cast<symbol_name_t>(c.chance(10) ? c.below(2) : c.chance(10) ? c.below(1ull << 31) : c.below(40));
    bool conj = id > 1 && c.coin();
    Monomial m{id, f, conj};
    c.note(pbt::str(f.real(), "+", f.imag(), "i #", id, conj ? "*" : ""));
    if (f != 1.0 || conj) c.nontrivial();
    bool plus = c.coin(), hash = c.coin();
    std::string s, join = hash ? " " : "*";
    Context context{3};
    switch (c.below(3)) {
        case 0: {
            std::stringstream ss;
            if (plus) ss << std::showpos;
            if (hash) ss << std::showbase;
            ss << m;
            c.check(static_cast<bool>(ss.flags() & std::ios::showpos) == plus && static_cast<bool>(ss.flags() & std::ios::showbase) == hash, "flags of the stream are changed");
            s = ss.str();
            break;
        }
        case 1: {
            std::stringstream ss;
            m.format_as_symbol_id_without_context(ss, plus, hash);
            s = ss.str();
            break;
        }
        default: {
            StringFormatContext sfc{context};
            sfc.format_info.display_symbolic_as = StringFormatContext::DisplayAs::SymbolIds;
            auto j = c.below(hash ? 3 : 2);
            sfc.format_info.prefactor_join = j == 0 ? StringFormatContext::PrefactorJoin::Space : j == 1 ? StringFormatContext::PrefactorJoin::Asterix : StringFormatContext::PrefactorJoin::Nothing;
            join = j == 0 ? " " : j == 1 ? "*" : "";
            sfc.format_info.hash_before_symbol_id = hash;
            sfc.format_info.first_in_polynomial = !plus;
            s = m.as_string(sfc);
        }
    }
    c.note("\"" + s + "\"");
    if (id == 0) { c.check(s == (plus ? " + 0" : "0"), "zero"); return; }
    c.check(s.compare(0, 3, " + ") == 0 || s.compare(0, 3, " - ") == 0 ? plus : !plus, "sign in front");
    if (!hash && id > 1) {
        // without marks, "-5" is a symbol; with a factor there is a sign between factor and symbol
        std::string rest = plus ? s.substr(3) : s;
        if (f == 1.0 || f == -1.0) {
            c.check(rest == (f == -1.0 && !plus ? "-" : "") + std::to_string(id) + (conj ? "*" : ""), "symbol without factor");
            c.check(!plus || s.compare(0, 3, f == 1.0 ? " + " : " - ") == 0, "sign");
            return;
        }
    }
    auto terms = read_sum(s, [&](Reader& r, Term& t) { return atom_id(r, t, hash); }, join);
    c.check(terms.has_value() && terms->size() == 1, "does not read as a term");
    auto& t = terms->front();
    c.check(near(t.factor, f), pbt::str("factor reads ", t.factor.real(), "+", t.factor.imag(), "i"));
    if (id == 1) c.check(t.scalar, "scalar is not printed as a number");
    else c.check(!t.scalar && t.id == id && t.conj == conj, "symbol");
}

LAW(print_and_parse, "a conjugate or negative symbol, or a scalar", 15000, 300000) {
    // what is printed in the parser's own language reads back as the same
    auto id = static_cast<symbol_name_t>(2 + (c.chance(10) ? c.below((1ull << 31) - 2) : c.below(40)));
    bool conj = c.coin(), scalar = c.chance(30);
    double v = gen_factor_part(c);
    cd f = scalar ? v : c.coin() ? 1.0 : -1.0;
    Monomial m = scalar ? Monomial{1, f, false} : Monomial{id, f, conj};
    if (conj || f != 1.0) c.nontrivial();
    std::stringstream ss;
    bool hash = !scalar && f == 1.0 && c.coin();
    if (hash) ss << std::showbase;
    ss << m;
    c.note("\"" + ss.str() + "\"");
    if (scalar && (v == 0.0 || ss.str().find('.') == std::string::npos)) throw pbt::Discard{};      // without a point, digits are the number of a symbol
    Monomial back{ss.str()};
    c.check(back.id == m.id && back.conjugated == m.conjugated && near(back.factor, m.factor), pbt::str("reads ", back.factor.real(), " #", back.id, back.conjugated ? "*" : ""));
}

LAW(name_tables, "conjugates have names of their own", 6000, 100000) {
    using namespace Algebraic;
    using Mode = AlgebraicPrecontext::ConjugateMode;
    auto mode = std::vector{Mode::SelfAdjoint, Mode::Bunched, Mode::Interleaved}[c.below(3)];
    auto n = c.below(c.chance(10) ? 60 : 6);
    bool single = c.coin();
    static const std::string first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", later = first + "0123456789_.|";
    std::vector<std::string> names;
    std::set<std::string> used;
    for (size_t i = 0; i < n; ++i) {
        std::string s;
        int tries = 0;
        do {
            if (++tries > 20) throw pbt::Discard{};
            s = std::string(1, c.pick(std::vector<char>(first.begin(), first.end())));
            if (!single) for (size_t k = c.below(4); k > 0; --k) s.push_back(later[c.below(later.size())]);
            if (n > 40) s += std::to_string(i);
        } while (!used.insert(s).second);
        names.push_back(s);
    }
    std::string shown;
    for (auto& s : names) shown += s + " ";
    c.note(pbt::str(mode == Mode::SelfAdjoint ? "self-adjoint " : mode == Mode::Bunched ? "bunched " : "interleaved ", shown));
    if (mode != Mode::SelfAdjoint && n > 0) c.nontrivial();
    AlgebraicPrecontext apc{static_cast<oper_name_t>(n), mode};
    auto fault = c.below(6);
    if (fault == 0 && n > 1) {
        names[c.below(n)] = names[0]; 
        bool dup = false;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) dup = dup || names[i] == names[j];
        if (!dup) return;
        try { NameTable t{apc, std::vector<std::string>{names}}; c.fail("accepts one name for two operators"); } catch (const std::invalid_argument&) { }
        return;
    }
    if (fault == 1) {
        if (n > 0 && c.coin()) names.pop_back(); else names.emplace_back("extra");
        try { NameTable t{apc, std::vector<std::string>{names}}; c.fail("accepts another number of names"); } catch (const std::invalid_argument&) { }
        return;
    }
    if (fault == 2 && n > 0) {
        static const std::vector<std::string> bad{"", "1", "_a", "*", "a*", "a b", "a;b", "<a>", "a-", "\xc3\xa9", "a\n", "9z", "|", ".a", "a#", "-"};
        names[c.below(n)] = c.pick(bad);
        c.note("bad name");
        try { NameTable t{apc, std::vector<std::string>{names}}; c.fail("accepts an invalid name"); } catch (const std::invalid_argument&) { }
        return;
    }
    bool defaults = c.chance(20);
    if (defaults) { names.clear(); for (size_t i = 0; i < n; ++i) names.push_back("X" + std::to_string(i + 1)); }
    auto table = defaults ? NameTable{apc} : NameTable{apc, std::vector<std::string>{names}};
    auto total = mode == Mode::SelfAdjoint ? n : 2 * n;
    std::set<std::string> all;
    for (size_t i = 0; i < total; ++i) {
        size_t raw = mode == Mode::Interleaved ? i / 2 : i % std::max<size_t>(n, 1);
        bool conj = mode == Mode::SelfAdjoint ? false : mode == Mode::Bunched ? i >= n : i % 2 == 1;
        auto want = names[raw] + (conj ? "*" : "");
        const std::string& got = table[static_cast<oper_name_t>(i)];
        c.check(got == want, pbt::str("operator ", i, " is called \"", got, "\" not \"", want, "\""));
        c.check(table.find(want) == static_cast<oper_name_t>(i), pbt::str("\"", want, "\" is taken for operator ", table.find(want)));
        std::stringstream ss;
        table.format_stream(ss, static_cast<oper_name_t>(i));
        c.check(ss.str() == want, "printed as " + ss.str());
        if (mode == Mode::SelfAdjoint) c.check(table.find(want + "*") == static_cast<oper_name_t>(i), "starred name of self-adjoint operator");
        all.insert(want);
    }
    c.check(all.size() == total, "names are not distinct");
    for (auto& s : {std::string{}, std::string("nobody"), std::string("a**"), std::string("*")}) {
        if (used.count(s) && !defaults) continue;
        try { (void) table.find(s); c.fail("finds " + s); } catch (const std::invalid_argument&) { }
    }
    bool ones = std::all_of(names.begin(), names.end(), [](auto& s) { return s.size() == 1; });
    c.check(table.all_single() == ones, "single characters");
}

LAW(words, "a word of two operators or more, or a signed one", 12000, 200000) {
    auto w = gen_words(c);
    auto& s = w.scene;
    std::map<std::string, Word> seen;
    bool braces = c.coin(), traditional = s.kind == LOC && c.coin();
    Moment::Locality::TraditionalLOFormatter trad;
    for (size_t k = 1 + c.below(6); k > 0; --k) {
        int sign = c.coin() ? 0 : static_cast<int>(c.below(4));
        auto q = to_seq(s.context(), s.word(c, 5), sign);
        Word word = from_seq(q);
        if (word.ops.size() > 1 || word.sign) c.nontrivial();
        StringFormatContext sfc{s.context()};
        sfc.format_info.show_braces = braces;
        if (traditional) sfc.format_info.locality_formatter = &trad;
        std::stringstream ss;
        ContextualOS os{ss, sfc};
        os << q;
        auto t = ss.str();
        c.note(show(word) + " \"" + t + "\"");
        if (!braces && !traditional) c.check(s.context().format_sequence(q) == t, "two texts of one word: " + s.context().format_sequence(q));
        Reader r{t};
        auto back = read_word(r, traditional ? w.traditional : w.lex, braces, w.glued);
        c.check(back.has_value() && r.end(), "cannot be read");
        c.check(same(*back, word), "reads as " + show(*back));
        auto [it, fresh] = seen.emplace(t, word);
        c.check(fresh || same(it->second, word), "also the text of " + show(it->second));
    }
}

LAW(named_words, "a word of two operators or more", 5000, 80000) {
    // operators with names chosen by the user
    using namespace Algebraic;
    using Mode = AlgebraicPrecontext::ConjugateMode;
    auto mode = std::vector{Mode::SelfAdjoint, Mode::Bunched, Mode::Interleaved}[c.below(3)];
    auto n = 1 + c.below(4);
    AlgebraicPrecontext apc{static_cast<oper_name_t>(n), mode};
    bool single = c.coin();
    std::vector<std::string> names;
    std::set<std::string> used;
    for (size_t i = 0; i < n; ++i) {
        std::string s;
        int tries = 0;
        do {
            if (++tries > 20) throw pbt::Discard{};
            s = std::string(1, static_cast<char>((c.coin() ? 'A' : 'a') + static_cast<char>(c.below(26))));
            if (!single) for (size_t k = c.below(3); k > 0; --k) s.push_back("ab1_.|"[c.below(6)]);
        } while (s[0] == 'i' || s[0] == 'I' || !used.insert(s).second);         // imaginary factors are printed with i
        names.push_back(s);
    }
    AlgebraicContext context{apc, std::make_unique<NameTable>(apc, std::vector<std::string>{names}), false, false, {}};
    Lexicon lex;
    auto total = mode == Mode::SelfAdjoint ? n : 2 * n;
    for (size_t i = 0; i < total; ++i) lex[context.names()[static_cast<oper_name_t>(i)]] = static_cast<int>(i);
    c.check(lex.size() == total, "two operators have the same name");
    bool glued = context.names().all_single(), braces = c.coin();
    std::map<std::string, Word> seen;
    for (int k = 0; k < 5; ++k) {
        auto q = to_seq(context, gen_word(c, static_cast<int>(total), 5), static_cast<int>(c.below(4)));
        Word word = from_seq(q);
        if (word.ops.size() > 1) c.nontrivial();
        StringFormatContext sfc{context};
        sfc.format_info.show_braces = braces;
        std::stringstream ss;
        ContextualOS os{ss, sfc};
        if (c.coin()) os << q;
        else { context.format_raw_sequence(os, q.raw()); word.sign = 0; }
        auto t = ss.str();
        c.note(show(word) + " \"" + t + "\"");
        Reader r{t};
        auto back = read_word(r, lex, braces, glued);
        c.check(back.has_value() && r.end(), "cannot be read");
        c.check(same(*back, word), "reads as " + show(*back));
        seen.emplace(t, word);
    }
}

LAW(locality_names, "two or more parties or measurements", 4000, 60000) {
    // parties and measurements with names chosen by the user; measurement and outcome identify an operator
    auto np = 1 + c.below(3);
    std::vector<Moment::Locality::Party> parties;
    std::vector<std::string> want, want_trad;
    std::vector<std::array<size_t, 3>> ops;
    static const std::vector<std::string> stems{"A", "B", "Alice", "Bob", "p_", "Q"}, mstems{"x", "y", "pos", "mom", "m_", "N"};
    std::vector<std::vector<std::string>> mnames;
    std::vector<std::string> pnames;
    size_t made = 0;
    for (size_t p = 0; p < np; ++p) {
        std::vector<Moment::Locality::Measurement> mm;
        auto pname = stems[(p * 2 + c.below(2)) % 6];
        pnames.push_back(pname);
        mnames.emplace_back();
        for (size_t m = 0, nm = 1 + c.below(3); m < nm; ++m) {
            auto mname = mstems[(m * 2 + c.below(2)) % 6];
            auto k = 2 + c.below(c.chance(10) ? 12 : 3);
            mm.emplace_back(std::string(mname), static_cast<oper_name_t>(k));
            mnames.back().push_back(mname);
            for (size_t x = 0; x + 1 < k; ++x) {
                want.push_back(pname + "." + mname + std::to_string(x));
                want_trad.push_back(pname + std::to_string(x) + "|" + std::to_string(m));
                ops.push_back({p, m, x});
            }
            ++made;
        }
        parties.emplace_back(static_cast<party_name_t>(p), std::string(pname), std::move(mm));
    }
    if (made > 1) c.nontrivial();
    Moment::Locality::LocalityContext context{std::move(parties)};
    Moment::Locality::NaturalLOFormatter natural;
    Moment::Locality::TraditionalLOFormatter trad;
    c.note(pbt::str(np, " parties, ", want.size(), " operators"));
    c.check(context.size() == want.size(), "number of operators");
    for (size_t o = 0; o < want.size(); ++o) {
        OperatorSequence q{store(Ops{static_cast<int>(o)}), context};
        c.check(context.format_sequence(q) == want[o], "operator is called " + context.format_sequence(q) + " not " + want[o]);
        auto& party = context.associated_party(static_cast<oper_name_t>(o));
        c.check(party.format_operator(natural, static_cast<oper_name_t>(o)) == want[o], "name by party");
        c.check(party.format_operator(trad, static_cast<oper_name_t>(o)) == want_trad[o], "traditional name by party");
        std::vector<Moment::Locality::PMOIndex> index{Moment::Locality::PMOIndex{static_cast<party_name_t>(ops[o][0]), static_cast<mmt_name_t>(ops[o][1]), static_cast<uint32_t>(ops[o][2])}};
        auto t = context.format_sequence(trad, std::span<const Moment::Locality::PMOIndex>(index), false);
        c.check(t == want_trad[o], "traditional name by index is " + t);
    }
    c.check(context.format_sequence(natural, std::span<const Moment::Locality::PMOIndex>{}, false) == "1" && context.format_sequence(natural, std::span<const Moment::Locality::PMOIndex>{}, true) == "0", "identity and zero");
    // an operator that does not exist does not get the name of one that does, nor crash
    auto beyond = static_cast<oper_name_t>(want.size() + c.below(3));
    OperatorSequence no{OperatorSequence::ConstructRawFlag{}, sequence_storage_t{beyond}, 1, context};
    c.check(std::find(want.begin(), want.end(), context.format_sequence(no)) == want.end(), "operator beyond the last has a name");
}

LAW(polynomials, "two terms or more", 10000, 160000) {
    auto w = gen_words(c, true);
    auto& s = w.scene;
    auto& symbols = s.system->Symbols();
    fill_table(c, s, symbols, 6);
    if (symbols.size() < 3) throw pbt::Discard{};
    std::unique_ptr<PolynomialFactory> factory = gen_factory(c, symbols);
    Polynomial::storage_t terms;
    for (size_t n = c.below(6); n > 0; --n) {
        auto id = static_cast<symbol_name_t>(1 + c.below(symbols.size() - 1));
        terms.emplace_back(id, gen_factor(c), id > 1 && c.coin());
    }
    auto poly = (*factory)(std::move(terms));
    for (auto& m : poly) if (m.id != 1 && (std::abs(m.factor.real()) < 1e-3 * std::abs(m.factor.imag()) && m.factor.real() != 0)) throw pbt::Discard{};
    if (poly.size() > 1) c.nontrivial();
    StringFormatContext sfc{s.context(), symbols};
    bool ids = c.coin();
    if (ids) sfc.format_info.display_symbolic_as = StringFormatContext::DisplayAs::SymbolIds;
    sfc.format_info.show_braces = true;
    sfc.format_info.hash_before_symbol_id = true;
    auto j = c.below(3);
    sfc.format_info.prefactor_join = j == 0 ? StringFormatContext::PrefactorJoin::Space : j == 1 ? StringFormatContext::PrefactorJoin::Asterix : StringFormatContext::PrefactorJoin::Nothing;
    std::string join = j == 0 ? " " : j == 1 ? "*" : "";
    std::string t;
    if (ids && c.coin()) {
        std::stringstream ss;
        ss << std::showbase << poly;
        t = ss.str();
        join = " ";
    } else t = poly.as_string(sfc);
    c.note("\"" + t + "\"");
    if (poly.empty()) { c.check(t == "0", "zero"); return; }
    auto read = read_sum(t, [&](Reader& r, Term& term) {
        if (r.peek() == '#') return atom_id(r, term, true);
        if (ids) return false;
        term.word = read_word(r, w.lex, true, w.glued);
        return term.word.has_value();
    }, join);
    c.check(read.has_value(), "does not read as a sum");
    c.check(read->size() == poly.size(), "number of terms");
    for (size_t k = 0; k < poly.size(); ++k) {
        auto& m = poly[k];
        auto& r = (*read)[k];
        auto& sym = symbols[m.id];
        std::string at = pbt::str("term ", k + 1);
        if (m.id == 1) { c.check(r.scalar && near(r.factor, m.factor), at + " is not this scalar"); continue; }
        c.check(!r.scalar, at + " reads as a scalar");
        if (r.id) {
            c.check(ids || !sym.has_sequence(), at + " is not shown as a word");
            c.check(*r.id == m.id && r.conj == m.conjugated && near(r.factor, m.factor), at + " reads as another");
            continue;
        }
        Word want = from_seq(m.conjugated ? sym.sequence_conj() : sym.sequence());
        c.check(!r.word->zero && r.word->ops == want.ops, at + " reads as another word");
        c.check(near(r.factor * i_to(r.word->sign), m.factor * i_to(want.sign)), at + pbt::str(" has factor ", r.factor.real(), "+", r.factor.imag(), "i"));
    }
    // every term alone, after a whole polynomial in the same stream
    std::stringstream ss;
    ContextualOS os{ss, sfc};
    os << poly;
    ss.str("");
    os << poly;
    c.check(ss.str() == poly.as_string(sfc), "printed differently the second time: " + ss.str());
    ss.str("");
    os << poly[0];
    c.check(ss.str() == poly[0].as_string(sfc), "a term alone is printed as \"" + ss.str() + "\" after a polynomial");
}

LAW(raw_polynomials, "two terms or more", 10000, 160000) {
    auto w = gen_words(c);
    auto& s = w.scene;
    RawPolynomial raw;
    std::vector<std::pair<cd, Word>> want;
    for (size_t n = c.below(5); n > 0; --n) {
        auto q = to_seq(s.context(), c.chance(25) ? Ops{} : s.word(c, 4), c.chance(70) ? 0 : static_cast<int>(c.below(4)));
        if (q.zero()) continue;
        auto f = gen_factor(c);
        want.emplace_back(f, from_seq(q));
        raw.emplace_back(std::move(q), f);
    }
    auto t = raw.to_string(s.context());
    c.note("\"" + t + "\"");
    if (want.size() > 1) c.nontrivial();
    if (want.empty()) { c.check(t == "0", "zero"); return; }
    auto read = read_sum(t, [&](Reader& r, Term& term) {
        term.word = read_word(r, w.lex, true, w.glued);
        return term.word.has_value();
    }, "");
    c.check(read.has_value(), "does not read as a sum");
    c.check(read->size() == want.size(), "number of terms");
    for (size_t k = 0; k < want.size(); ++k) {
        auto& r = (*read)[k];
        auto [f, q] = want[k];
        c.check((r.scalar ? Ops{} : r.word->ops) == q.ops, pbt::str("term ", k + 1, " reads as another word"));
        c.check(near(r.factor * (r.scalar ? 1.0 : i_to(r.word->sign)), f * i_to(q.sign)), pbt::str("term ", k + 1, " has factor ", r.factor.real(), "+", r.factor.imag(), "i"));
    }
}

LAW(symbol_lists, "a symbol with a word, and another without", 4000, 60000) {
    auto w = gen_words(c, true);
    auto& s = w.scene;
    auto& symbols = s.system->Symbols();
    fill_table(c, s, symbols, 8);
    bool with = false, without = false;
    std::stringstream plain, ctx;
    plain << symbols;
    ContextualOS os{ctx, s.context(), symbols};
    os.format_info.show_braces = true;
    os << symbols;
    std::map<int64_t, std::string> lines;
    std::string line;
    while (std::getline(ctx, line)) if (line[0] == '#') {
        Reader r{line};
        r.eat("#");
        auto id = r.integer();
        c.check(id && r.eat(":\t"), "line \"" + line + "\"");
        c.check(lines.emplace(*id, line.substr(r.at)).second, "a symbol is listed twice");
    }
    c.check(lines.size() == symbols.size(), "number of symbols listed");
    size_t plain_lines = 0;
    while (std::getline(plain, line)) if (line[0] == '#') ++plain_lines;
    c.check(plain_lines == symbols.size(), "number of symbols listed without context");
    for (auto& sym : symbols) {
        auto& t = lines[sym.Id()];
        c.note(t);
        // the symbol alone, and its conjugate, as words or numbers
        for (int shown = 0; shown < 4; ++shown) {
            const bool conj = shown & 1, by_id = shown & 2;
            std::stringstream ss;
            ContextualOS one{ss, s.context(), symbols};
            one.format_info.show_braces = true;
            one.format_info.hash_before_symbol_id = true;
            one.format_info.display_symbolic_as = by_id ? StringFormatContext::DisplayAs::SymbolIds : StringFormatContext::DisplayAs::Operators;
            if (conj) one << sym.ConjugateDisplayElement(); else one << sym.ForwardDisplayElement();
            auto text = ss.str();
            if (by_id || !sym.has_sequence()) {
                c.checkf(text == pbt::str("#", sym.Id(), conj && !sym.is_hermitian() ? "*" : ""), [&] { return pbt::str("symbol ", sym.Id(), conj ? " conjugated" : "", " alone is shown as ", text); });
            } else {
                Reader r{text};
                auto back = read_word(r, w.lex, true, w.glued);
                c.checkf(back && r.at == text.size() && same(*back, from_seq(conj ? sym.sequence_conj() : sym.sequence())), [&] { return pbt::str("word of symbol ", sym.Id(), conj ? " conjugated" : "", " alone is shown as ", text); });
            }
        }
        if (!sym.has_sequence()) { without = true; c.check(t.compare(0, std::to_string(sym.Id()).size(), std::to_string(sym.Id())) == 0, "symbol without word: " + t); continue; }
        with = with || sym.Id() > 1;
        Reader r{t};
        auto back = read_word(r, w.lex, true, w.glued);
        c.check(back && r.eat(":\t") && same(*back, from_seq(sym.sequence())), "symbol's word is shown as " + t);
        std::string rest = t.substr(r.at);
        auto [re, im] = sym.basis_key();
        std::string kind = re >= 0 ? im >= 0 ? "Complex" : "Real" : im >= 0 ? "Imaginary" : "Zero";
        c.check(rest.compare(0, kind.size(), kind) == 0, "kind: " + rest);
        c.check((rest.find("Hermitian") != std::string::npos) == sym.is_hermitian(), "Hermitian: " + rest);
        auto has = [&](const std::string& key, ptrdiff_t v) {
            auto p = rest.find(key);
            if (v < 0) { c.check(p == std::string::npos, key + " of " + rest); return; }
            c.check(p != std::string::npos, key + " of " + rest);
            c.check(std::strtoll(rest.c_str() + p + key.size(), nullptr, 10) == v, key + " of " + rest);
        };
        has("Re#=", re);
        has("Im#=", im);
    }
    if (with && without) c.nontrivial();
    // headings count the symbols
    c.check(plain.str().find(std::to_string(symbols.size()) + " unique sequence") != std::string::npos || plain.str().find(std::to_string(symbols.size())) != std::string::npos, "heading");
    (void) s.context().to_string();
}

LAW(symmetrised, "an averaged symbol with more than one term", 600, 9000) {
    // symbols of a symmetrised system are shown as the combinations they stand for
    int n = static_cast<int>(2 + c.below(2));
    auto base = std::make_shared<Algebraic::AlgebraicMatrixSystem>(std::make_unique<Algebraic::AlgebraicContext>(static_cast<oper_name_t>(n)), 1e6);
    auto& bc = base->Context();
    base->generate_dictionary(2);
    (void) base->MomentMatrix(1);
    Eigen::SparseMatrix<double> g(n + 1, n + 1);
    g.insert(0, 0) = 1;
    std::vector<int> p(static_cast<size_t>(n));
    std::iota(p.begin(), p.end(), 0);
    std::swap(p[0], p[1]);
    bool minus = c.coin();
    for (int o = 0; o < n; ++o) g.insert(p[static_cast<size_t>(o)] + 1, o + 1) = minus && c.coin() && p[static_cast<size_t>(o)] == o ? -1 : 1;
    std::vector<Symmetrized::repmat_t> gens{g};
    auto elems = Symmetrized::Group::dimino_generation(gens);
    auto group = std::make_unique<Symmetrized::Group>(bc, std::make_unique<Symmetrized::Representation>(1, std::move(elems)));
    Symmetrized::SymmetrizedMatrixSystem sys{std::shared_ptr<MatrixSystem>(base), std::move(group), 2, std::make_unique<Derived::LUMapCoreProcessor>()};
    (void) sys.MomentMatrix(1);
    auto& symbols = sys.Symbols();
    // values for all words of the base
    Scene s;
    s.kind = FREE;
    s.ref = std::make_shared<Free>(n);
    s.n = n;
    s.seed = c.below(1000);
    auto bv = s.symbol_values(base->Symbols());
    auto& map = sys.map();
    Lexicon lex;
    for (int o = 0; o < n; ++o) lex["X" + std::to_string(o + 1)] = o;
    std::function<std::optional<cd>(Reader&)> sum;
    auto product = [&](Reader& r) -> std::optional<cd> {
        cd v = 1;
        bool any = false;
        while (!r.end() && r.peek() != ')' && r.s.compare(r.at, 3, " + ") && r.s.compare(r.at, 3, " - ")) {
            (void) r.eat(" ");
            if (r.peek() == '<') {
                auto word = read_word(r, lex, true, false);
                if (!word) return std::nullopt;
                v *= s.value(s.normal(word->ops, word->sign));
            } else {
                size_t was = r.at;
                auto f = r.factor();
                if (!f) {
                    r.at = was;
                    if (!r.eat("(")) return std::nullopt;
                    f = sum(r);
                    if (!f || !r.eat(")")) return std::nullopt;
                }
                v *= *f;
            }
            any = true;
        }
        if (!any) return std::nullopt;
        return v;
    };
    sum = [&](Reader& r) -> std::optional<cd> {
        cd v = 0;
        double sign = 1;
        while (true) {
            auto x = product(r);
            if (!x) return std::nullopt;
            v += sign * *x;
            if (r.eat(" + ")) sign = 1;
            else if (r.eat(" - ")) sign = -1;
            else return v;
        }
    };
    StringFormatContext sfc{sys.Context(), symbols};
    for (int k = 0; k < 6; ++k) {
        Polynomial::storage_t terms;
        for (size_t m = 1 + c.below(3); m > 0; --m) {
            auto id = static_cast<symbol_name_t>(1 + c.below(symbols.size() - 1));
            terms.emplace_back(id, c.coin() ? cd{1} : gen_coef(c), id > 1 && !symbols[id].is_hermitian() && c.coin());
        }
        auto poly = sys.polynomial_factory()(std::move(terms));
        if (poly.empty()) continue;
        cd want = 0;
        for (auto& m : poly) {
            auto b = map.inverse(Monomial{m.id, 1.0, m.conjugated});
            if (b.size() > 1) c.nontrivial();
            want += m.factor * eval(b, bv);
        }
        auto t = poly.as_string(sfc);
        c.note("\"" + t + "\"");
        Reader r{t};
        auto got = sum(r);
        c.check(got && r.end(), "does not read as a sum");
        c.check(std::abs(*got - want) < 1e-4 * (1 + std::abs(want)), pbt::str("has value ", got->real(), "+", got->imag(), "i, not ", want.real(), "+", want.imag(), "i"));
    }
}
