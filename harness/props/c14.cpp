#include <crab/crab.hpp>
#include <list>
#include <algorithm>
#include "../pbt.hpp"
const char *const PROP_ID   = "C14";
const char *const PROP_RULE =
    "histories of up to 120 operations on (a) the heap: insert, erase of any element, pop, re-insert with a changed key, duplicates and equal keys, drained at the end; (b) two lists: push front/back, insert at any "
    "position, unlink, destroy linked nodes, double insertion; compared with a sorted multiset / std::list after every operation; non-trivial: at least 4 elements present at once and one removed from the middle";
using namespace crab;
using namespace pbt;

struct HNode {
	int key;
	IntrusiveHeapIndex index;
	bool operator<(const HNode &o) const { return key < o.key; }
};
struct HNodeMin {
	int key;
	char pad = 0;
	IntrusiveHeapIndex index;
	bool operator<(const HNodeMin &o) const { return key > o.key; }
};
template<class N>
static void heap_case(Gen &g, Ctx &c) {
	IntrusiveHeap<N, &N::index> h;
	std::vector<std::unique_ptr<N>> nodes;
	std::vector<N *> in;  // model
	size_t total  = g.urange(1, 24);
	int keys      = int(g.urange(1, 3)) == 1 ? 4 : 1000;
	bool four = false, mid = false;
	if (g.flag())
		h.reserve(g.urange(0, 10));
	for (size_t i = 0; i != total; ++i) {
		nodes.emplace_back(new N);
		nodes.back()->key = int(g.below(uint64_t(keys)));
	}
	auto verify = [&] {
		c.eq(h.empty(), in.empty(), "heap-empty", "empty()");
		for (auto &n : nodes)
			c.eq(n->index.in_heap(), std::find(in.begin(), in.end(), n.get()) != in.end(), "heap-membership", "in_heap()");
		if (in.empty())
			return;
		N *top = *std::max_element(in.begin(), in.end(), [](N *a, N *b) { return *a < *b; });
		N &f   = h.front();
		c.check(std::find(in.begin(), in.end(), &f) != in.end(), "heap-foreign", "front() is not a present element");
		c.eq(f.key, top->key, "heap-order", "front() key");
		four |= in.size() >= 4;
	};
	verify();
	size_t ops = g.urange(1, 120);
	auto remove = [&](N *n) { in.erase(std::find(in.begin(), in.end(), n)); };
	for (size_t i = 0; i != ops; ++i) {
		N *n    = nodes[g.below(nodes.size())].get();
		bool is = std::find(in.begin(), in.end(), n) != in.end();
		switch (g.pick({6, 4, 3, 2, 1})) {
		case 0:
			PBT_LOG(c, "insert key " << n->key << "\n");
			c.eq(h.insert(*n), !is, "heap-insert-result", "insert() result");
			if (!is)
				in.push_back(n);
			break;
		case 1:
			PBT_LOG(c, "erase key " << n->key << " present " << is << "\n");
			if (is && in.size() > 3 && &h.front() != n)
				mid = true;
			c.eq(h.erase(*n), size_t(is), "heap-erase-result", "erase() result");
			if (is)
				remove(n);
			break;
		case 2:
			if (!in.empty()) {
				N *f = &h.front();
				PBT_LOG(c, "pop key " << f->key << "\n");
				h.pop_front();
				remove(f);
			}
			break;
		case 3:  // change of key: erase, change, insert
			h.erase(*n);
			if (is)
				remove(n);
			n->key = int(g.below(uint64_t(keys)));
			PBT_LOG(c, "rekey to " << n->key << "\n");
			h.insert(*n);
			in.push_back(n);
			break;
		default: {  // erase and destroy
			h.erase(*n);
			if (is)
				remove(n);
			PBT_LOG(c, "destroy key " << n->key << "\n");
			for (auto &p : nodes)
				if (p.get() == n) {
					p.reset(new N);
					p->key = int(g.below(uint64_t(keys)));
				}
		}
		}
		verify();
	}
	PBT_LOG(c, "drain\n");
	int last = 0;
	bool first = true;
	while (!in.empty()) {
		N *f = &h.front();
		if (!first) {
			N a;
			a.key = last;
			c.check(!(a < *f), "heap-order", "elements come out in the wrong order");
		}
		first = false;
		last  = f->key;
		h.pop_front();
		remove(f);
		verify();
	}
	if (four && mid)
		c.nontrivial();
	c.cls("heap");
}
struct LNode {
	int id;
	IntrusiveNode<LNode> other;
	IntrusiveNode<LNode> link;
	explicit LNode(int id) : id(id) {}
};
static void list_case(Gen &g, Ctx &c) {
	IntrusiveList<LNode, &LNode::link> l[2];
	std::list<int> m[2];
	std::vector<std::unique_ptr<LNode>> nodes;
	size_t total = g.urange(1, 12);
	for (size_t i = 0; i != total; ++i)
		nodes.emplace_back(new LNode(int(i)));
	bool four = false, mid = false;
	auto where = [&](int id) {
		for (int k = 0; k != 2; ++k)
			if (std::find(m[k].begin(), m[k].end(), id) != m[k].end())
				return k;
		return -1;
	};
	auto verify = [&] {
		for (int k = 0; k != 2; ++k) {
			c.eq(l[k].empty(), m[k].empty(), "list-empty", "empty()");
			std::string a, b;
			size_t guard = 0;
			for (auto it = l[k].begin(); it != l[k].end() && ++guard < 100; ++it)
				a += std::to_string(it->id) + " ";
			for (auto id : m[k])
				b += std::to_string(id) + " ";
			c.eq(a, b, "list-order", "elements");
			if (!m[k].empty()) {
				c.eq(l[k].front().id, m[k].front(), "list-front", "front()");
				c.eq(l[k].back().id, m[k].back(), "list-back", "back()");
				std::string r;
				auto it = l[k].end();
				for (size_t i = 0; i != m[k].size(); ++i) {
					--it;
					r = std::to_string((*it).id) + " " + r;
				}
				c.eq(r, b, "list-backwards", "elements backwards");
				// the postfix forms give the old place and move
				auto p = l[k].begin();
				auto q = p++;
				c.check(q == l[k].begin() && !(q != l[k].begin()), "list-postfix", "it++ does not give the old place");
				c.check(++q == p, "list-postfix", "it++ does not move to the next place");
				auto e = l[k].end();
				auto f = e--;
				c.check(f == l[k].end(), "list-postfix", "it-- does not give the old place");
				c.eq((*e).id, m[k].back(), "list-postfix", "element before the end, by it--");
			}
			four |= m[k].size() >= 4;
		}
		for (auto &n : nodes)
			c.eq(n->link.in_list(), where(n->id) >= 0, "list-membership", "in_list()");
	};
	size_t ops = g.urange(1, 80);
	for (size_t i = 0; i != ops; ++i) {
		LNode &n = *nodes[g.below(nodes.size())];
		int at   = where(n.id);
		int k    = int(g.below(2));
		switch (g.pick({4, 2, 2, 3, 1})) {
		case 0:
			PBT_LOG(c, "push_back " << n.id << " to " << k << "\n");
			l[k].push_back(n);
			if (at < 0)
				m[k].push_back(n.id);
			break;
		case 1:
			PBT_LOG(c, "push_front " << n.id << " to " << k << "\n");
			l[k].push_front(n);
			if (at < 0)
				m[k].push_front(n.id);
			break;
		case 2: {
			size_t pos = g.urange(0, m[k].size());
			PBT_LOG(c, "insert " << n.id << " to " << k << " at " << pos << "\n");
			auto it = l[k].begin();
			auto mt = m[k].begin();
			for (size_t j = 0; j != pos; ++j)
				++it, ++mt;
			l[k].insert(it, n);
			if (at < 0)
				m[k].insert(mt, n.id);
			break;
		}
		case 3:
			PBT_LOG(c, "unlink " << n.id << "\n");
			n.link.unlink();
			if (at >= 0) {
				mid |= m[at].front() != n.id && m[at].back() != n.id;
				m[at].remove(n.id);
			}
			break;
		default: {
			PBT_LOG(c, "destroy " << n.id << "\n");
			int id = n.id;
			nodes[size_t(id)].reset(new LNode(id));
			if (at >= 0)
				m[at].remove(id);
		}
		}
		verify();
	}
	if (four && mid)
		c.nontrivial();
	c.cls("list");
}
void prop_case(Gen &g, Ctx &c) {
	switch (g.pick({3, 3, 4})) {
	case 0: heap_case<HNode>(g, c); break;
	case 1: heap_case<HNodeMin>(g, c); break;
	default: list_case(g, c);
	}
}
