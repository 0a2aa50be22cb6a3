#include "common.h"
#include "core/base.h"
#include "core/hash.h"
#include "geometry/2dplane.h"
#include "utils/node.h"
#include "utils/tree.h"
using namespace Planner;
using N = Node<int>;

// What the links should be: parent and ordered children of every node, by number.
struct Model {
	std::map<int, int> parent;
	std::map<int, std::vector<int>> kids;
	bool Below(int a, int b) const
	{
		for (int p = parent.at(a); p >= 0; p = parent.at(p))
			if (p == b)
				return true;
		return false;
	}
	int Depth(int a) const
	{
		int d = 0;
		for (int p = parent.at(a); p >= 0; p = parent.at(p))
			d++;
		return d;
	}
	void Unlink(int a)
	{
		if (parent[a] >= 0) {
			auto& v = kids[parent[a]];
			v.erase(std::find(v.begin(), v.end(), a));
		}
		parent[a] = -1;
	}
	void Link(int a, int p)
	{
		kids[p].push_back(a);
		parent[a] = p;
	}
};

static std::map<int, N*> g_node;

static void Verify(const Model& m, bool queries)
{
	bool par = true, kid = true, query = true;
	auto num = [](const N* n) { return n ? **n : -1; };
	for (auto& [i, n] : g_node) {
		par &= num(n->GetParent()) == m.parent.at(i);
		auto& want = m.kids.at(i);
		auto& got = n->GetChildren();
		bool same = got.size() == want.size();
		for (size_t k = 0; same && k < want.size(); k++)
			same &= got[k] && got[k].get() == g_node[want[k]];
		kid &= same;
	}
	CHECK(par, "parent", "a node has the wrong parent");
	CHECK(kid, "children", "a node has the wrong children, or in another order");
	if (!par || !kid || !queries)
		return;
	for (auto& [i, n] : g_node) {
		query &= (int)n->GetDepth() == m.Depth(i) && num(n->GetFirst()) == (m.kids.at(i).empty() ? -1 : m.kids.at(i)[0]);
		int prev = -1, next = -1;
		if (m.parent.at(i) >= 0) {
			auto& v = m.kids.at(m.parent.at(i));
			size_t k = std::find(v.begin(), v.end(), i) - v.begin();
			prev = k ? v[k - 1] : -1;
			next = k + 1 < v.size() ? v[k + 1] : -1;
		}
		query &= num(n->GetPrevious()) == prev && num(n->GetNext()) == next;
		for (auto& [j, o] : g_node)
			query &= n->IsDescendantOf(o) == m.Below(i, j) && n->IsAncestorOf(o) == m.Below(j, i);
		CHECK(query, "query", "a depth, ancestor or sibling query is wrong");
		if (!query)
			return;
	}
}

static void Nodes(int k)
{
	Model m;
	std::map<int, Scope<N>> owned;   // nodes without parent, except the root of the tree
	g_node.clear();
	int next = 0;
	auto create = [&] {
		auto s = makeScope<N>(next);
		g_node[next] = s.get();
		m.parent[next] = -1;
		m.kids[next] = {};
		owned[next] = std::move(s);
		return next++;
	};
	int r = create();
	Scope<N> root = std::move(owned[r]);
	owned.erase(r);
	std::string log;
	auto pick = [&] { return std::next(g_node.begin(), H::RandInt(0, (int)g_node.size() - 1))->first; };
	for (int step = 0, n = H::RandInt(1, 40); step < n; step++) {
		int op = H::RandInt(0, 9);
		char what[80] = "";
		if (op < 4 || g_node.size() < 3) {
			int p = pick(), x = create();
			snprintf(what, sizeof what, " add(%d to %d)", x, p);
			H::Case(10, "nodes case %d:%s%s", k, log.c_str(), what);
			N* got = g_node[p]->AddChild(std::move(owned[x]));
			CHECK(got == g_node[x], "add", "AddChild hands back another node");
			owned.erase(x);
			m.Link(x, p);
		} else if (op == 4) {
			int x = pick();
			if (m.parent[x] < 0)
				continue;
			snprintf(what, sizeof what, " remove(%d)", x);
			H::Case(10, "nodes case %d:%s%s", k, log.c_str(), what);
			auto s = g_node[m.parent[x]]->RemoveChild(g_node[x]);
			if (!CHECK(s.get() == g_node[x], "remove", "RemoveChild hands out another node"))
				return;
			m.Unlink(x);
			owned[x] = std::move(s);
		} else if (op == 5 && !owned.empty()) {
			int x = std::next(owned.begin(), H::RandInt(0, (int)owned.size() - 1))->first, p = pick();
			if (p == x || m.Below(p, x))
				continue;
			snprintf(what, sizeof what, " attach(%d to %d)", x, p);
			H::Case(10, "nodes case %d:%s%s", k, log.c_str(), what);
			g_node[p]->AddChild(std::move(owned[x]));
			owned.erase(x);
			m.Link(x, p);
		} else if (op == 6) {
			int b = pick();
			if (m.parent[b] < 0)
				continue;
			int p = m.parent[b], x = create();
			bool adopt = H::Coin();
			snprintf(what, sizeof what, " replace(%d by %d%s)", b, x, adopt ? " adopting" : "");
			H::Case(10, "nodes case %d:%s%s", k, log.c_str(), what);
			auto s = g_node[p]->ReplaceChild(g_node[b], std::move(owned[x]), adopt);
			if (!CHECK(s.get() == g_node[b], "replace", "ReplaceChild hands out another node"))
				return;
			owned.erase(x);
			auto& v = m.kids[p];
			*std::find(v.begin(), v.end(), b) = x;
			m.parent[x] = p;
			m.parent[b] = -1;
			if (adopt) {
				for (int c : m.kids[b])
					m.parent[c] = x;
				m.kids[x] = m.kids[b];
				m.kids[b].clear();
			}
			owned[b] = std::move(s);
		} else {
			int c = pick(), q = pick(), top = **root;
			if (c == q || (c != top && !m.Below(c, top)) || (q != top && !m.Below(q, top)))
				continue;
			snprintf(what, sizeof what, " reparent(%d to %d)", c, q);
			H::Case(10, "nodes case %d:%s%s", k, log.c_str(), what);
			bool up = m.Below(q, c);
			int old = m.parent[c];
			N::Reparent(g_node[c], g_node[q], root);
			m.Unlink(c);
			if (up) {
				m.Unlink(q);
				if (old >= 0)
					m.Link(q, old);
			}
			m.Link(c, q);
			if (!CHECK(root && root.get() == g_node[up && old < 0 ? q : top], "root", "the root of the tree is wrong"))
				return;
		}
		log += what;
		Verify(m, step % 4 == 0 || step + 1 == n);
		if (H::g_fails)
			return;
	}
}

static void Trees(int k)
{
	using T = Tree<Point2d, 2>;
	T tree;
	std::vector<Point2d> points;
	auto fresh = [&] { points.emplace_back(H::RandInt(-9, 9), H::RandInt(-9, 9)); return points.back(); };
	std::string log;
	for (int round = 0; round < 2; round++) {
		std::vector<std::pair<Point2d, T::Node*>> nodes;
		Point2d s = fresh();
		H::Case(10, "tree case %d", k);
		nodes.emplace_back(s, tree.CreateRootNode(s));
		for (int step = 0, n = H::RandInt(1, 15); step < n; step++) {
			Point2d t = fresh();
			T::Node* src = H::Coin(0.7) ? nodes[H::RandInt(0, (int)nodes.size() - 1)].second : nullptr;
			H::Case(10, "tree case %d step %d: extend to (%g,%g)", k, step, t.x(), t.y());
			T::Node *known = nullptr, *got = tree.Extend(t, src);
			double best = 1e9;
			for (auto& [p, q] : nodes) {
				if (p == t)
					known = q;
				best = std::min(best, (p - t).norm());
			}
			if (known) {
				CHECK(got == known, "extend", "extending to a state of the tree does not hand back its node");
			} else {
				if (!CHECK(got && (*got)->state == t, "extend", "the new node has another state"))
					return;
				if (src)
					CHECK(got->GetParent() == src && src->GetChildren().back().get() == got, "extend", "the new node is not the last child of its source");
				else
					CHECK(got->GetParent() && H::Near(((*got->GetParent())->state - t).norm(), best, 1e-9), "extend", "the new node is not attached to a nearest node");
				nodes.emplace_back(t, got);
			}
			CHECK(tree.Size() == nodes.size(), "tree-size", "wrong number of nodes");
			if (nodes.size() > 2 && H::Coin(0.3)) {
				auto* a = nodes[H::RandInt(0, (int)nodes.size() - 1)].second;
				auto* b = nodes[H::RandInt(0, (int)nodes.size() - 1)].second;
				if (a != b) {
					tree.Reparent(a, b);
					CHECK(a->GetParent() == b, "reparent", "the child is not below its new parent");
				}
			}
			bool in = true;
			T::Node other(Point2d(100, 100));
			for (auto& [p, q] : nodes)
				in &= tree.BelongToTree(q) && tree.GetNearestNode(p) == q;
			in &= !tree.BelongToTree(&other);
			CHECK(in, "belong", "a node of the tree is not recognised, or a foreign one is");
		}
		tree.Clear();
		CHECK(tree.Size() == 0, "clear", "a cleared tree is not empty");
	}
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int k = 0; H::More() && !H::g_fails && (k < 4000 || H::g_budget > 6); k++) {
		Nodes(k);
		if (k % 8 == 0)
			Trees(k);
	}
	return H::Done();
}
