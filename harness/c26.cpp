// C26 Apriori association rules
#include "common.hpp"
#include "methods/rule_model/apriori.hpp"
using Ap = openml::rule_model::Apriori<size_t>;
using Set = std::vector<size_t>; using Tr = std::vector<Set>;
struct In { Tr t; double sup, conf; };
static In gen(Source& s, Ctx& c, size_t nmax, size_t imax) {
    In g; size_t n = s.sz(1, nmax), items = s.sz(1, imax); size_t unit = s.chance(25) ? s.pick(std::vector<size_t>{1013, 256, 65536, 100003, (size_t)1 << 32, ((size_t)1 << 40) + 3}) : 1, off = unit > 1 ? s.draw(9) : 0; size_t pats = s.sz(0, 3); Tr pat(pats); for (auto& p : pat) { size_t l = s.sz(1, std::min<size_t>(items, 4)); for (size_t i = 0; i < l; ++i) p.push_back(s.draw(items)); } g.t.resize(n); for (auto& x : g.t) { if (pats && s.chance(60)) x = pat[s.draw(pats)]; size_t l = s.sz(0, 3); for (size_t i = 0; i < l; ++i) x.push_back(s.draw(items)); auto p = perm(s, x.size()); Set y(x.size()); for (size_t i = 0; i < x.size(); ++i) y[i] = x[p[i]] * unit + off; x = y; }
    g.sup = s.b() ? (double)s.sz(0, n) / (double)n : s.pick(std::vector<double>{0.03, 0.1, 0.2, 0.35, 0.5, 0.75}); g.conf = s.pick(std::vector<double>{0.0, 0.5, 0.3, 2.0 / 3, 0.75, 0.9, 1.0}); c.log("transactions", g.t); c.log("min_support", g.sup); c.log("min_confidence", g.conf); return g;
}
static void check(Ctx& c, const In& g, Ap& a) {
    size_t n = g.t.size(), sup = (size_t)((double)n * g.sup); Tr t = g.t; std::map<size_t, size_t> item; for (auto& x : t) { std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); for (size_t v : x) ++item[v]; } Set fr; for (auto& p : item) if (p.second >= sup) fr.push_back(p.first); Tr t0 = g.t;
    if (fr.empty()) { c.label("nothing frequent"); must_throw<std::runtime_error>("no frequent item", [&] { a.fit_transform(g.t); }); return; }
    a.fit_transform(g.t); REQ(g.t == t0, "transactions modified"); size_t k = fr.size(); if (k > 12) pbt::discard(); std::vector<size_t> mask; for (auto& x : t) { size_t b = 0; for (size_t i = 0; i < k; ++i) if (std::binary_search(x.begin(), x.end(), fr[i])) b |= (size_t)1 << i; mask.push_back(b); } std::vector<size_t> cnt((size_t)1 << k, 0); for (size_t b = 1; b < cnt.size(); ++b) for (size_t m : mask) cnt[b] += (m & b) == b;
    auto set = [&](size_t b) { Set v; for (size_t i = 0; i < k; ++i) if (b >> i & 1) v.push_back(fr[i]); return v; }; std::map<std::pair<Set, Set>, double> want; size_t big = 0; for (size_t b = 1; b < cnt.size(); ++b) { if (cnt[b] < std::max<size_t>(sup, 1)) continue; big = std::max(big, (size_t)__builtin_popcountl(b)); for (size_t q = (b - 1) & b; q; q = (q - 1) & b) { double cf = (double)cnt[b] / (double)cnt[q]; if (cf >= g.conf) want[{set(q), set(b & ~q)}] = cf; } }
    c.label(cat("longest itemset ", std::min<size_t>(big, 5))); c.nt(want.size() > 1); auto show = [](const Set& x) { std::string r = "{"; for (size_t v : x) r += cat(v, " "); return r + "}"; }; std::map<std::pair<Set, Set>, double> got; for (auto& r : a.get_rules()) { Set p = std::get<0>(r), q = std::get<1>(r); std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); REQ(got.insert({{p, q}, std::get<2>(r)}).second, "rule ", show(p), " => ", show(q), " is reported twice"); auto it = want.find({p, q}); REQ(it != want.end(), "rule ", show(p), " => ", show(q), " of confidence ", std::get<2>(r), " does not hold at these thresholds"); near_("confidence", std::get<2>(r), it->second, 1e-12); } for (auto& w : want) REQ(got.count(w.first), "rule ", show(w.first.first), " => ", show(w.first.second), " of confidence ", w.second, " is missing");
}
LAW(rules, 9000) { In g = gen(s, c, 12, 6); Ap a(g.sup, g.conf); check(c, g, a); }
LAW(rules_large, 300) { In g = gen(s, c, 60, 11); g.sup = std::max(g.sup, 0.05); c.log("min_support", g.sup); Ap a(g.sup, g.conf); check(c, g, a); }
LAW(defaults, 600) { In g = gen(s, c, 40, 6); g.sup = 0.03; g.conf = 0.5; Ap a; check(c, g, a); }
LAW(monotone, 2500) {         // raising either threshold only removes rules
    In g = gen(s, c, 12, 6); if (g.sup == 0) g.sup = 0.1; double s2 = std::min(1.0, g.sup + 0.3 * s.unit()), c2 = std::min(1.0, g.conf + 0.4 * s.unit()); c.log("support2", s2); c.log("confidence2", c2); c.nt(); Ap a(g.sup, g.conf), b(s2, c2); bool ok = true; try { b.fit_transform(g.t); } catch (const std::runtime_error&) { ok = false; } bool ok1 = true; try { a.fit_transform(g.t); } catch (const std::runtime_error&) { ok1 = false; } REQ(ok1 || !ok, "frequent items appear when the support threshold is raised"); if (!ok || !ok1) return; auto ra = a.get_rules(); for (auto& r : b.get_rules()) { REQ(std::get<2>(r) >= c2, "rule below the confidence threshold"); REQ(std::find(ra.begin(), ra.end(), r) != ra.end(), "a rule appears when the thresholds are raised"); }
}
LAW(print, 800) {             // the printed list is the list of rules
    In g = gen(s, c, 12, 5); Ap a(g.sup, g.conf); try { a.fit_transform(g.t); } catch (const std::runtime_error&) { pbt::discard(); } std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); a.print_rules(); std::cout.rdbuf(old); c.nt(a.get_rules().size() > 1); std::istringstream in(o.str()); std::string l; size_t i = 0; auto rules = a.get_rules(); while (std::getline(in, l)) { REQ(i < rules.size(), "more lines than rules"); auto nums = [](std::string x) { Set v; std::string d; for (char ch : x + " ") if (isdigit((unsigned char)ch)) d += ch; else if (!d.empty()) { v.push_back(std::stoul(d)); d.clear(); } return v; }; size_t p = l.find("==>"), q = l.find("confidence"); REQ(p != std::string::npos && q != std::string::npos, "line ", i, " is no rule: ", l); REQ(nums(l.substr(0, p)) == std::get<0>(rules[i]) && nums(l.substr(p, q - p)) == std::get<1>(rules[i]), "line ", i, " shows another rule: ", l); ++i; } REQ(i == rules.size(), i, " lines for ", rules.size(), " rules");
}
#include "pbt_main.hpp"
