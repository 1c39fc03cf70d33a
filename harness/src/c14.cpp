// C14: the collection of matrices of a system, against a map from descriptions to numbers.
#include "../asker.h"
#include "../linear.h"
#include <atomic>
#include <barrier>
#include <thread>

using namespace Moment;
using namespace model;

LAW(history, "an earlier matrix was asked for again, after others were made", 15000, 300000) {
    auto a = gen_asker(c);
    auto& ms = a.system();
    c.note(a.scene.name);
    c.label(kind_name[a.scene.kind]);
    std::map<std::string, ptrdiff_t> made;              // descriptions that must be known
    std::map<std::string, Request> asked;               // every description there was a way to ask for
    std::map<std::string, std::string> described;       // descriptions of matrices, and what they were asked for as
    std::map<std::string, std::string> named;           // names, and what they are names of
    auto name_of = [&](const Request& r) {
        if (!r.name || r.key[0] == 'S') return;          // names of substituted matrices name matrices by their names, which may be alike
        auto n = r.name();
        auto kind = r.key.substr(0, r.key.find_first_of("0123456789"));
        auto [it, fresh] = named.emplace(kind + n, r.key);
        c.checkf(fresh || it->second == r.key, [&] { return pbt::str('"', n, "\" names ", r.key, " as well as ", it->second); });
    };
    struct Entry { const SymbolicMatrix* matrix; std::string dump, description; bool deleted; };
    std::vector<Entry> all;
    size_t books = 0;

    auto catch_up = [&](ptrdiff_t want) {
        while (all.size() < ms.size()) {
            auto n = static_cast<ptrdiff_t>(all.size());
            auto& m = ms[n];
            all.push_back({&m, dump(m), m.Description(), false});
        }
        c.check(want < static_cast<ptrdiff_t>(ms.size()), "number past the last matrix");
    };
    auto learn = [&](const Request& r, size_t before) {
        for (auto& p : r.parts) {
            auto n = p.find_index();
            c.checkf(n >= 0 && p.contains(), [&] { return r.key + " was made without " + p.key; });
            auto [it, fresh] = made.emplace(p.key, n);
            c.checkf(fresh ? static_cast<size_t>(n) >= before : it->second == n, [&] { return pbt::str(p.key, ": made as part of ", r.key, " with number ", n); });
            asked.insert_or_assign(p.key, p);
        }
    };
    auto steps = 1 + c.below(14);
    for (uint64_t step = 0; step < steps; ++step) {
        auto what = c.below(20);
        const auto before = ms.size();
        if (what < 12) {                                // ask for a matrix
            auto r = a.random(c, true);
            if (!made.empty() && c.chance(30)) {
                std::vector<std::string> ks;
                for (auto& [k, n] : made) if (n >= 0 && asked.count(k)) ks.push_back(k);
                if (!ks.empty()) { auto k = c.pick(ks); r = asked.at(k); }
            }
            auto known = made.find(r.key);
            const bool is_known = known != made.end();
            const bool dead = is_known && known->second >= 0 && all[static_cast<size_t>(known->second)].deleted;
            bool dead_part = false;
            for (auto& p : r.parts) if (auto it = made.find(p.key); it != made.end() && all[static_cast<size_t>(it->second)].deleted) dead_part = true;
            c.note(r.key);
            name_of(r);
            if (!is_known || known->second >= 0) {
                c.checkf(r.contains() == is_known || dead, [&] { return r.key + (is_known ? ": made, but not contained" : ": contained, but never made"); });
                c.checkf(dead || r.find_index() == (is_known ? known->second : -1), [&] { return pbt::str(r.key, ": found as ", r.find_index(), " where ", is_known ? known->second : -1, " was made"); });
            }
            if (!is_known && r.fetch) {
                bool threw = false;
                try { r.fetch(); } catch (const errors::missing_component&) { threw = true; }
                c.check(threw, r.key + ": fetched, though never made");
            }
            auto p = policy(c);
            const bool by_call = c.coin();
            Made m{-1, nullptr};
            try {
                if (by_call) { m.second = r.call(p); m.first = r.find_index(); } else m = r.create(p);
            } catch (const std::exception& e) {
                c.checkf(dead || dead_part, [&] { return r.key + ": not made: " + e.what(); });
                c.label("refused because a matrix was deleted");
                // stop here: what was made along the way is not known
                return;
            }
            c.check(m.first >= 0 && m.second, r.key + ": no matrix");
            catch_up(m.first);
            if (is_known && known->second >= 0 && !dead) {
                c.checkf(m.first == known->second, [&] { return pbt::str(r.key, ": number ", m.first, " instead of ", known->second); });
                c.check(ms.size() == before, r.key + ": made twice");
                if (static_cast<size_t>(m.first) + 1 < all.size()) c.nontrivial();
            } else if (is_known) {
                if (!dead) c.check(ms.size() == before || static_cast<size_t>(m.first) >= before, r.key + ": is an older matrix");
                for (auto& [k, n] : made) c.checkf(k == r.key || n != m.first, [&] { return r.key + " shares a matrix with " + k; });
                made[r.key] = m.first;
            } else {
                c.checkf(static_cast<size_t>(m.first) + 1 == ms.size() && ms.size() > before, [&] { return pbt::str(r.key, ": numbered ", m.first, " of ", ms.size()); });
                c.checkf(ms.size() <= before + 1 + r.parts.size(), [&] { return pbt::str(r.key, ": ", ms.size() - before, " matrices were made"); });
                for (auto& [k, n] : made) c.checkf(n != m.first, [&] { return r.key + " shares a matrix with " + k; });
                made[r.key] = m.first;
                learn(r, before);
            }
            c.check(&ms[m.first] == m.second, r.key + ": lookup by number gives another matrix");
            c.check(r.find_index() == m.first && r.contains(), r.key + ": just made, but not found");
            {
                auto kind = r.key.substr(0, r.key.find_first_of("0123456789"));
                auto [it, fresh] = described.emplace(kind + m.second->Description(), r.key);
                c.checkf(fresh || it->second == r.key, [&] { return pbt::str('"', m.second->Description(), "\" describes ", r.key, " as well as ", it->second); });
            }
            if (r.fetch) c.check(r.fetch() == m.second, r.key + ": another matrix is fetched");
            asked.insert_or_assign(r.key, r);
        } else if (what < 14 && ms.size() > 0) {        // delete one
            auto n = static_cast<ptrdiff_t>(c.below(ms.size() + 2)) - 1;
            if (c.coin()) n = static_cast<ptrdiff_t>(ms.size());
            if (c.chance(40)) continue;
            auto lock = ms.get_write_lock();
            bool there = n >= 0 && n < static_cast<ptrdiff_t>(all.size()) && !all[static_cast<size_t>(n)].deleted;
            // composite matrices refer to their constituents for good: leave those alone
            bool wanted = false;
            for (auto& e : all) if (!e.deleted) if (auto* cm = dynamic_cast<const CompositeMatrix*>(e.matrix); cm && there) for (auto [part, factor] : cm->Constituents()) wanted |= part == all[static_cast<size_t>(n)].matrix;
            if (wanted) continue;
            c.note(pbt::str("delete ", n));
            bool did = ms.delete_matrix(lock, n);
            c.check(did == there, pbt::str("deleting matrix ", n, did ? " succeeded" : " failed", " among ", all.size()));
            if (there) { all[static_cast<size_t>(n)].deleted = true; c.label("deleted"); }
            c.check(ms.size() == before, "deletion changed the number of matrices");
        } else if (what < 15) {                         // something else is added
            if (ms.size() == 0) continue;
            auto n = c.below(all.size());
            if (all[n].deleted) continue;
            std::unique_ptr<SymbolicMatrix> x;
            try { x = all[n].matrix->pre_multiply(to_seq(a.scene.context(), Ops{}, 0), cd{3.0}, ms.polynomial_factory(), ms.Symbols(), MTP::Never); } catch (const errors::cannot_multiply_exception&) { continue; }
            auto* raw = x.get();
            auto lock = ms.get_write_lock();
            c.note(pbt::str("add 3 times matrix ", n));
            auto k = ms.push_back(lock, std::move(x));
            c.check(k == static_cast<ptrdiff_t>(before) && &ms[k] == raw && ms.size() == before + 1, "matrix added with another number");
            catch_up(k);
        } else if (what < 17) {                         // rulebooks and substitution
            if (c.coin() || books == 0) {
                if (ms.Symbols().size() < 3) continue;
                auto book = std::make_unique<MomentRulebook>(ms, false);
                auto name = c.coin() ? std::string{} : pbt::str("book", c.below(3));
                book->set_name(name);
                std::vector<Polynomial> rules;
                auto id = static_cast<symbol_name_t>(2 + c.below(ms.Symbols().size() - 2));
                if (ms.Symbols()[static_cast<size_t>(id)].is_antihermitian()) continue;
                rules.emplace_back(ms.polynomial_factory()(Polynomial::storage_t{Monomial{id, 1.0}, Monomial{1, -0.5}}));
                try { book->add_raw_rules(std::move(rules)); book->complete(); } catch (const std::exception&) { continue; }
                auto* raw = book.get();
                auto [n, b] = ms.Rulebook.add(std::move(book));
                c.note(pbt::str("rulebook ", n, " #", id, "=0.5"));
                c.check(n == books && &b == raw && ms.Rulebook.size() == books + 1 && ms.Rulebook.contains(n) && !ms.Rulebook.contains(n + 1) && !ms.Rulebook.empty(), "rulebook numbered otherwise");
                c.check(b.name() == (name.empty() ? pbt::str("Rulebook #", n) : name), "name of rulebook: " + b.name());
                c.check(&ms.Rulebook(n) == raw && &ms.Rulebook.find(n) == raw, "another rulebook is found");
                ++books;
            }
            bool threw = false;
            try { auto& q = ms.Rulebook.find(books + c.below(2)); (void)q; } catch (const errors::missing_component&) { threw = true; }
            c.check(threw, "a rulebook that was never added is found");
            // ask for a substituted matrix, which may be impossible
            auto src = static_cast<ptrdiff_t>(c.below(ms.size() + 2)) - (c.chance(5) ? 1 : 0);
            auto rb = static_cast<ptrdiff_t>(c.below(books + 1)) - (c.chance(5) ? 1 : 0);
            bool ok = src >= 0 && src < static_cast<ptrdiff_t>(all.size()) && !all[static_cast<size_t>(src)].deleted && rb >= 0 && rb < static_cast<ptrdiff_t>(books);
            auto r = request(ms, ms.SubstitutedMatrix, SubstitutedMatrixIndex{src, rb}, pbt::str("S ", src, " ", rb));
            c.note(r.key);
            {
                bool known_source = src >= 0 && src < static_cast<ptrdiff_t>(all.size()), known_book = rb >= 0 && rb < static_cast<ptrdiff_t>(books);
                if (!known_source || !all[static_cast<size_t>(src)].deleted) {
                    auto name = r.name();
                    auto source = known_source ? ms[src].Description() : pbt::str("#", src);
                    auto book = known_book ? pbt::str('"', ms.Rulebook.find(static_cast<size_t>(rb)).name(), '"') : pbt::str("#", rb);
                    c.checkf(name.find(source) != std::string::npos && name.find(book) != std::string::npos, [&] { return pbt::str("rulebook ", rb, " on matrix ", src, " is named ", name); });
                }
            }
            auto known = made.find(r.key);
            try {
                auto m = r.create(policy(c));
                c.check(ok || (known != made.end() && !all[static_cast<size_t>(known->second)].deleted), r.key + ": made from what does not exist");
                catch_up(m.first);
                if (known != made.end()) c.check(m.first == known->second && ms.size() == before, r.key + ": made again");
                else c.check(m.first == static_cast<ptrdiff_t>(before) && ms.size() == before + 1, r.key + ": numbered otherwise");
                c.check(m.second == &ms[m.first] && r.find_index() == m.first, r.key + ": not found");
                made[r.key] = m.first;
                asked.insert_or_assign(r.key, r);
            } catch (const std::exception& e) {
                bool was_deleted = known != made.end() && all[static_cast<size_t>(known->second)].deleted;
                c.checkf(!ok || was_deleted, [&] { return r.key + ": " + e.what(); });
                c.check(ms.size() == before, r.key + ": failed, but a matrix was added");
                if (known == made.end()) c.check(!r.contains() && r.find_index() < 0, r.key + ": failed, but is found");
                c.label("failed substitution");
            }
        } else if (what < 18) {                         // dictionary
            auto len = c.below(3);
            if (len > a.scene.max_len || ms.osg_size(len) > 80) continue;
            auto count = ms.Symbols().size();
            bool fresh = ms.generate_dictionary(len);
            c.note(pbt::str("dictionary ", len));
            c.check(fresh == (ms.Symbols().size() > count), "dictionary: said to have made new symbols, or not to have");
            for (auto& w : ms.Context().operator_sequence_generator(len)) c.checkf(ms.Symbols().where(ms.Context().can_have_aliases() ? ms.Context().simplify_as_moment(OperatorSequence{w}) : w).found(), [&] { return "no symbol for the word " + text(from_seq(w)); });
            auto again = ms.Symbols().size();
            c.check(!ms.generate_dictionary(len) && ms.Symbols().size() == again, "a dictionary made twice has new symbols");
        } else {                                        // numbers that are nothing
            for (ptrdiff_t n : {ptrdiff_t{-1}, static_cast<ptrdiff_t>(ms.size()), static_cast<ptrdiff_t>(ms.size() + 3)}) {
                bool t1 = false, t2 = false;
                try { auto& q = ms[n]; (void)q; } catch (const errors::missing_component&) { t1 = true; }
                try { auto& q = ms.get(n); (void)q; } catch (const errors::missing_component&) { t2 = true; }
                c.check(t1 && t2, pbt::str("there is a matrix ", n));
            }
        }
        // all that was known still is
        c.check(ms.empty() == (ms.size() == 0) && ms.size() == all.size(), "size");
        for (size_t n = 0; n < all.size(); ++n) {
            if (all[n].deleted) {
                bool threw = false;
                try { auto& q = ms[static_cast<ptrdiff_t>(n)]; (void)q; } catch (const errors::missing_component&) { threw = true; }
                c.check(threw, pbt::str("deleted matrix ", n, " is found"));
            } else c.check(&ms[static_cast<ptrdiff_t>(n)] == all[n].matrix, pbt::str("matrix ", n, " became another"));
        }
        for (auto& [k, n] : made) if (n >= 0 && !all[static_cast<size_t>(n)].deleted) if (auto it = asked.find(k); it != asked.end())
            c.checkf(it->second.find_index() == n && it->second.contains(), [&] { return pbt::str(it->first, ": found as ", it->second.find_index(), ", formerly ", n); });
    }
    for (size_t n = 0; n < all.size(); ++n) if (!all[n].deleted) {
        c.checkf(dump(*all[n].matrix) == all[n].dump, [&] { return pbt::str("matrix ", n, " changed from ", all[n].dump, " to ", dump(*all[n].matrix)); });
        c.check(all[n].matrix->Description() == all[n].description, pbt::str("description of matrix ", n, " changed"));
    }
}

RACY_LAW(concurrent, "two threads asked for the same new matrix", 3000, 40000) {
    auto a = gen_asker(c);
    auto& ms = a.system();
    c.note(a.scene.name);
    // made beforehand
    for (auto k = c.below(2); k > 0; --k) { auto r = a.random(c, true); c.note("first " + r.key); r.create(MTP::Never); }
    // what each thread asks for
    std::vector<Request> pool;
    for (auto k = 1 + c.below(4); k > 0; --k) pool.push_back(a.random(c, true));
    const size_t n_threads = 2 + c.below(3);
    std::vector<std::vector<std::tuple<size_t, int, MTP>>> plan(n_threads);
    std::map<std::string, std::set<size_t>> askers;
    for (size_t t = 0; t < n_threads; ++t) for (auto k = 1 + c.below(4); k > 0; --k) {
        size_t q = c.below(pool.size());
        int how = static_cast<int>(c.below(3));
        plan[t].emplace_back(q, how, policy(c));
        askers[pool[q].key].insert(t);
        c.note(pbt::str("thread ", t, ": ", pool[q].key));
    }
    const auto before = ms.size();
    for (auto& [k, ts] : askers) if (ts.size() >= 2) for (auto& r : pool) if (r.key == k && r.find_index() < 0) c.nontrivial();
    std::vector<std::vector<std::pair<std::string, Made>>> got(n_threads);
    std::vector<std::string> errors(n_threads);
    std::barrier start{static_cast<std::ptrdiff_t>(n_threads)};
    {
        std::vector<std::thread> workers;
        for (size_t t = 0; t < n_threads; ++t) workers.emplace_back([&, t] {
            start.arrive_and_wait();
            try {
                for (auto& [q, how, pol] : plan[t]) {
                    auto& r = pool[q];
                    if (how == 0) got[t].emplace_back(r.key, r.create(pol));
                    else {
                        auto* m = r.call(pol);
                        ptrdiff_t n;
                        { auto lock = ms.get_read_lock(); n = r.find_index(); if (&ms[n] != m) errors[t] = r.key + ": number and matrix disagree"; }
                        got[t].emplace_back(r.key, Made{n, m});
                        // readers look at what was made
                        if (how == 2) { auto d = m->Dimension(); if (d > 0 && m->is_monomial()) (void)dynamic_cast<const MonomialMatrix&>(*m).SymbolMatrix(0, d - 1); (void)m->IncludedSymbols().size(); (void)m->Description().size(); }
                    }
                }
            } catch (const std::exception& e) { errors[t] = e.what(); }
        });
        for (auto& w : workers) w.join();
    }
    for (auto& e : errors) c.check(e.empty(), "thread failed: " + e);
    std::map<std::string, Made> of;
    std::map<ptrdiff_t, std::string> owner;
    for (auto& g : got) for (auto& [k, m] : g) {
        auto [it, fresh] = of.emplace(k, m);
        c.checkf(fresh || it->second == m, [&] { return k + ": two threads were given different matrices"; });
        auto [o, first] = owner.emplace(m.first, k);
        c.checkf(first || o->second == k, [&] { return k + " shares a matrix with " + o->second; });
        c.check(&ms[m.first] == m.second, k + ": not the matrix of that number");
    }
    // nothing was made that nobody asked for
    std::set<std::string> allowed;
    for (auto& [k, m] : of) for (auto& r : pool) if (r.key == k) { allowed.insert(k); for (auto& p : r.parts) allowed.insert(p.key); }
    c.checkf(ms.size() <= before + allowed.size(), [&] { return pbt::str(ms.size() - before, " matrices made for ", allowed.size(), " descriptions"); });
    for (auto& r : pool) if (auto it = of.find(r.key); it != of.end()) c.check(r.find_index() == it->second.first, r.key + ": found elsewhere afterwards");
    c.label(kind_name[a.scene.kind]);
}
