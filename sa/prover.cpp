/* Entailment search in floating point: saturates the facts (scale quotients, scale lifting, products of bounds) and
** looks for an infeasible core.  Every core found is rebuilt and re-checked exactly by the caller; an answer of
** "no core" only means that the fact is not used.  */
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <algorithm>
#include <numeric>
extern "C" {
#include "lp.c"
}
using namespace std ;
typedef vector<int> Mono ;
struct MH { size_t operator () (const Mono &m) const { size_t h = 14695981039346656037ull ; for (int a : m) h = (h ^ (unsigned) a) * 1099511628211ull ; return h ; } } ;
static unordered_map<Mono, int, MH> mono_id ;
static vector<Mono> monos ;
static vector<char> isint, pos ; static vector<int> invof ; static vector<double> minv ;
static vector<int> strip_id ;		/* per mono, -1 unknown */
struct Term { int m ; double c ; } ;
struct PolyN { vector<Term> t ; double k ; bool rat ; } ;	/* rat: has non integer coefficients */
static vector<PolyN> polys ;

static int mono (const Mono &m)
{	auto it = mono_id.find (m) ; if (it != mono_id.end ()) return it->second ;
	int id = (int) monos.size () ; mono_id [m] = id ; monos.push_back (m) ; strip_id.push_back (-1) ; return id ; }
static int strip (int m)
{	if (strip_id [m] >= 0) return strip_id [m] ;
	Mono r ; for (int a : monos [m]) if (!pos [a]) r.push_back (a) ;
	int id = mono (r) ; strip_id [m] = id ; return id ; }
static Mono mul (const Mono &a, const Mono &b)
{	Mono m (a) ; m.insert (m.end (), b.begin (), b.end ()) ; sort (m.begin (), m.end ()) ;
	for (bool again = true ; again ; )
	{	again = false ;
		for (size_t i = 0 ; i < m.size () && !again ; i++)
		{	int o = invof [m [i]] ; if (o < 0) continue ;
			auto it = find (m.begin (), m.end (), o) ;
			if (it != m.end ())
			{	int x = m [i] ; m.erase (it) ; m.erase (find (m.begin (), m.end (), x)) ; again = true ; }
			}
		}
	return m ; }
extern "C" void sa_atom (int id, int integer, int inv_of)
{	while ((int) isint.size () <= id) { isint.push_back (0) ; pos.push_back (0) ; invof.push_back (-1) ; minv.push_back (1) ; }
	isint [id] = integer ; invof [id] = inv_of ; }
extern "C" void sa_pos (int id, double mn) { pos [id] = 1 ; minv [id] = mn ; fill (strip_id.begin (), strip_id.end (), -1) ; }
extern "C" int sa_poly (int n, const int *len, const int *atoms, const double *c, int rat)
{	PolyN p ; p.k = 0 ; p.rat = rat ; if (monos.empty ()) mono (Mono ()) ;
	for (int i = 0 ; i < n ; i++)
	{	if (len [i] == 0) { p.k = c [i] ; continue ; }
		p.t.push_back ({ mono (Mono (atoms, atoms + len [i])), c [i] }) ; atoms += len [i] ; }
	sort (p.t.begin (), p.t.end (), [] (const Term &a, const Term &b) { return a.m < b.m ; }) ;
	polys.push_back (p) ; return (int) polys.size () - 1 ; }

struct Ent { vector<Term> t ; double k ; bool strict, rat ; int kind, x, y ; } ;
struct Pool
{	vector<Ent> e ; unordered_multimap<size_t, int> ix ;
	static size_t h (const Ent &p) { size_t h = 1469598103934665603ull ; for (auto &t : p.t) { uint64_t b ; memcpy (&b, &t.c, 8) ; h = (h ^ (size_t) t.m) * 1099511628211ull ; h = (h ^ b) * 1099511628211ull ; } uint64_t b ; double k = p.k + 0.0 ; memcpy (&b, &k, 8) ; return (h ^ b) * 1099511628211ull ; }
	static bool allint (const Ent &p) { for (auto &t : p.t) for (int a : monos [t.m]) if (!isint [a]) return false ; return true ; }
	static void tighten (Ent &p)
	{	if (p.rat) return ;
		double g = 0 ;
		for (auto &t : p.t) { double a = fabs (t.c) ; if (a > 4e15) return ; int64_t x = (int64_t) g, y = (int64_t) a ; g = (double) std::gcd (x, y) ; }
		if (g == 0) return ;
		bool in = allint (p) ;
		if (in)
		{	if (fabs (p.k) > 4e15 || p.k != floor (p.k)) return ;
			double nk = p.strict ? ceil (p.k / g) - 1 : floor (p.k / g) ;
			for (auto &t : p.t) t.c /= g ; p.k = nk ; p.strict = false ; }
		else if (g != 1)
		{	for (auto &t : p.t) t.c /= g ; p.k /= g ; if (p.k != floor (p.k)) p.rat = true ; }
		}
	int add (Ent p)
	{	tighten (p) ;
		if (p.t.empty ()) { if (p.k > 0 || (p.k == 0 && !p.strict)) return -1 ; }
		size_t hh = h (p) ;
		auto r = ix.equal_range (hh) ;
		for (auto i = r.first ; i != r.second ; ++i)
		{	Ent &q = e [i->second] ;
			if (q.k == p.k && q.t.size () == p.t.size () && equal (q.t.begin (), q.t.end (), p.t.begin (), [] (const Term &a, const Term &b) { return a.m == b.m && a.c == b.c ; }))
			{	if (p.strict && !q.strict) { q = p ; return i->second ; }
				return -1 ; }
			}
		e.push_back (p) ; ix.emplace (hh, (int) e.size () - 1) ; return (int) e.size () - 1 ; }
} ;
static bool has (const Mono &m, int a) { return find (m.begin (), m.end (), a) != m.end () ; }
static int without (const Mono &m, int a) { Mono r (m) ; r.erase (find (r.begin (), r.end (), a)) ; return mono (r) ; }
static void sort_terms (Ent &p)
{	sort (p.t.begin (), p.t.end (), [] (const Term &a, const Term &b) { return a.m < b.m ; }) ;
	size_t w = 0 ;
	for (size_t i = 0 ; i < p.t.size () ; )
	{	double c = 0 ; size_t j = i ; for ( ; j < p.t.size () && p.t [j].m == p.t [i].m ; j++) c += p.t [j].c ;
		if (c != 0) { p.t [w].m = p.t [i].m ; p.t [w].c = c ; w++ ; }
		i = j ; }
	p.t.resize (w) ; }
static void quotients (const Ent &p, int src, vector<Ent> &out)
{	if (p.t.empty ()) return ;
	set<int> cand ; for (int a : monos [p.t [0].m]) if (pos [a]) cand.insert (a) ;
	for (int a : cand)
	{	bool ok = true ; for (auto &t : p.t) if (!has (monos [t.m], a)) { ok = false ; break ; }
		if (!ok) continue ;
		Ent q ; q.rat = p.rat ; q.k = 0 ; q.strict = p.strict ; q.kind = 1 ; q.x = src ; q.y = a ;
		for (auto &t : p.t) { int w = without (monos [t.m], a) ; if (w == 0) q.k += t.c ; else q.t.push_back ({ w, t.c }) ; }
		sort_terms (q) ;
		bool xi = !p.rat && Pool::allint (q) ;
		if (p.k == 0) out.push_back (q) ;
		else if (p.k < 0) { if (xi) { q.k -= 1 ; q.strict = false ; } else q.strict = true ; out.push_back (q) ; }
		else if (xi && p.k == floor (p.k) && (minv [a] > p.k || (p.strict && minv [a] >= p.k))) { q.strict = false ; out.push_back (q) ; }
		}
}
static Ent product (const Ent &a, const Ent &b, int ia, int ib)
{	Ent r ; r.k = a.k * b.k ; r.rat = a.rat || b.rat ; r.strict = a.strict && b.strict ; r.kind = 3 ; r.x = ia ; r.y = ib ;
	for (auto &t : a.t) if (b.k != 0) r.t.push_back ({ t.m, t.c * b.k }) ;
	for (auto &t : b.t) if (a.k != 0) r.t.push_back ({ t.m, t.c * a.k }) ;
	for (auto &t : a.t) for (auto &u : b.t)
	{	int m = mono (mul (monos [t.m], monos [u.m])) ;
		if (m == 0) r.k += t.c * u.c ; else r.t.push_back ({ m, t.c * u.c }) ; }
	sort_terms (r) ; return r ; }

/* kinds: 0 fact x (-1 goal), 1 quotient of entry or fact x by atom y (x >= 0: fact, -1: goal), 2 entry x times scale atom y,
** 3 entry x times entry y, 4 bound of scale atom y.  out: n, then 4 ints per needed entry (index, kind, x, y), then the core. */
extern "C" int sa_prove (int nf, const int *fid, const unsigned char *fst, int gid, int gst, int *out, int cap)
{	Pool P ;
	auto mk = [] (int id, int st, int src) { Ent e ; const PolyN &p = polys [id] ; e.t = p.t ; e.k = p.k ; e.strict = st ; e.rat = p.rat ; e.kind = 0 ; e.x = src ; e.y = 0 ; return e ; } ;
	vector<Ent> base ; base.reserve (nf * 2) ;
	for (int i = 0 ; i < nf ; i++) { base.push_back (mk (fid [i], fst [i], i)) ; Ent b = base.back () ; quotients (b, i, base) ; }
	vector<char> rel (monos.size () + 64, 0) ;
	auto mark = [&] (int m) { int s = strip (m) ; if ((int) rel.size () <= s) rel.resize (s + 64, 0) ; if (!rel [s]) { rel [s] = 1 ; return true ; } return false ; } ;
	auto ison = [&] (int m) { int s = strip (m) ; return s < (int) rel.size () && rel [s] ; } ;
	{	vector<Ent> g ; g.push_back (mk (gid, gst, -1)) ; Ent b = g [0] ; quotients (b, -1, g) ;
		for (auto &q : g) { for (auto &t : q.t) mark (t.m) ; P.add (q) ; } }
	vector<char> done (base.size (), 0) ;
	for (int rnd = 0 ; rnd < 40 ; rnd++)
	{	bool ch = false ;
		for (size_t i = 0 ; i < base.size () ; i++)
		{	if (done [i]) continue ;
			bool r = false ; for (auto &t : base [i].t) if (ison (t.m)) { r = true ; break ; }
			if (!r) continue ;
			done [i] = 1 ; P.add (base [i]) ;
			for (auto &t : base [i].t) if (mark (t.m)) ch = true ; }
		if (!ch) break ; }
	set<int> ms, scales ;
	for (auto &e : P.e) for (auto &t : e.t) if (monos [t.m].size () >= 2) { ms.insert (t.m) ; for (int a : monos [t.m]) if (pos [a]) scales.insert (a) ; }
	for (int a : scales)
	{	set<int> need ; for (int m : ms) if (has (monos [m], a)) need.insert (without (monos [m], a)) ;
		size_t n0 = P.e.size () ;
		for (size_t i = 0 ; i < n0 ; i++)
		{	bool want = false, bad = false ;
			for (auto &t : P.e [i].t) { if (has (monos [t.m], a)) { bad = true ; break ; } if (need.count (t.m)) want = true ; }
			if (bad || !want) continue ;
			Ent r ; r.k = 0 ; r.rat = P.e [i].rat ; r.strict = P.e [i].strict ; r.kind = 2 ; r.x = (int) i ; r.y = a ;
			for (auto &t : P.e [i].t) r.t.push_back ({ mono (mul (monos [t.m], Mono { a })), t.c }) ;
			if (P.e [i].k != 0) r.t.push_back ({ mono (Mono { a }), P.e [i].k }) ;
			sort_terms (r) ; P.add (r) ; }
		Ent b ; b.t.push_back ({ mono (Mono { a }), 1 }) ; b.k = -minv [a] ; b.strict = false ; b.rat = false ; b.kind = 4 ; b.x = 0 ; b.y = a ; P.add (b) ; }
	map<int, vector<int>> lows, ups ;
	for (size_t i = 0 ; i < P.e.size () ; i++)
	{	Ent &e = P.e [i] ;
		if (e.t.size () == 1 && monos [e.t [0].m].size () == 1) (e.t [0].c > 0 ? lows : ups) [monos [e.t [0].m] [0]].push_back ((int) i) ; }
	for (int m : ms)
	{	if (monos [m].size () != 2) continue ;
		int ab [2] = { monos [m] [0], monos [m] [1] } ; vector<int> f [2] ;
		for (int s = 0 ; s < 2 ; s++)
		{	f [s] = lows [ab [s]] ; for (int x : ups [ab [s]]) f [s].push_back (x) ;
			if (f [s].empty () && pos [ab [s]])
			{	Ent b ; b.t.push_back ({ mono (Mono { ab [s] }), 1 }) ; b.k = -minv [ab [s]] ; b.strict = false ; b.rat = false ; b.kind = 4 ; b.x = 0 ; b.y = ab [s] ;
				int i = P.add (b) ; if (i >= 0) f [s].push_back (i) ; }
			/* the tightest ones first */
			}
		for (size_t i = 0 ; i < f [0].size () && i < 6 ; i++) for (size_t j = 0 ; j < f [1].size () && j < 6 ; j++)
			P.add (product (P.e [f [0] [i]], P.e [f [1] [j]], f [0] [i], f [1] [j])) ;
		}
	/* linear program */
	int M = (int) P.e.size () ;
	unordered_map<int, int> vs ; vector<int> rp { 0 }, ci ; vector<double> va, ks ; vector<unsigned char> ss ;
	vector<int> core (M + 2) ; int nc = -1 ;
	for (int i = 0 ; i < M ; i++)
	{	Ent &e = P.e [i] ;
		if (e.t.empty ()) { core [0] = i ; nc = 1 ; }
		for (auto &t : e.t) { auto it = vs.find (t.m) ; int j ; if (it == vs.end ()) { j = (int) vs.size () ; vs [t.m] = j ; } else j = it->second ; ci.push_back (j) ; va.push_back (t.c) ; }
		rp.push_back ((int) ci.size ()) ; ks.push_back (e.k) ; ss.push_back (e.strict) ; }
	if (nc < 0)
		nc = lp_core (M, (int) vs.size (), rp.data (), ci.data (), va.data (), ks.data (), ss.data (), core.data (), 3000) ;
	if (nc < 0) return -1 ;
	vector<char> need (M, 0) ; vector<int> st (core.begin (), core.begin () + nc) ;
	while (!st.empty ())
	{	int i = st.back () ; st.pop_back () ; if (need [i]) continue ; need [i] = 1 ;
		if (P.e [i].kind == 2) st.push_back (P.e [i].x) ;
		if (P.e [i].kind == 3) { st.push_back (P.e [i].x) ; st.push_back (P.e [i].y) ; } }
	int n = 0 ; for (int i = 0 ; i < M ; i++) n += need [i] ;
	if (2 + 4 * n + nc > cap) return -1 ;
	int *o = out ; *o++ = n ; *o++ = nc ;
	for (int i = 0 ; i < M ; i++) if (need [i]) { *o++ = i ; *o++ = P.e [i].kind ; *o++ = P.e [i].x ; *o++ = P.e [i].y ; }
	for (int i = 0 ; i < nc ; i++) *o++ = core [i] ;
	return nc ; }
