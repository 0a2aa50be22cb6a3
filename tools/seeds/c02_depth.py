PROPERTY = "C02"
EDITS = [("planner/src/utils/node.h", "			if (newParent->IsDescendantOf(child)) {", "			if (newParent->GetParent() == child) {")]
NEEDS = "re-parenting a node below a grandchild or deeper descendant of its own"
BREAKS = "the subtree is cut off the tree and its links form a cycle"
DEMO = r'''
#include "core/base.h"
#include "utils/node.h"
using namespace Planner;
int main()
{
	auto root = makeScope<Node<int>>(0);
	auto* a = root->AddChild(makeScope<Node<int>>(1));
	auto* b = a->AddChild(makeScope<Node<int>>(2));
	auto* c = b->AddChild(makeScope<Node<int>>(3));
	Node<int>::Reparent(a, c, root);
	return c->GetParent() == root.get() && a->GetParent() == c && b->GetParent() == a ? 0 : 1;
}
'''
