//go:build verif

// Contracts of the graph, as far as they go without reasoning about trees of nodes: what is
// created, that ranking never changes a segment, and what Append does to the root.
// Comment-only: read by gocv, never compiled.
package contracts

//@ func NewGraph(name) (g)
//@ ensures [C18] empty-root: eqText(g.Root.Info,name) && len(g.Root.Nodes) == 0 && g.Root.from == 0 && g.Root.to == 0

// changes lists of nodes only: no segment of any node
//@ func rankNodes(a, b) (ok)
//@ requires 0 <= a.from && a.from <= a.to && 0 <= b.from && b.from <= b.to
//@ modifies key tok.Node.Nodes, key cell:*tok.Node
//@ let apart = a.to <= b.from || b.to <= a.from
//@ let nested = (a.from <= b.from && b.to <= a.to) || (b.from <= a.from && a.to <= b.to)
//@ ensures [C18] clash-refused: !apart && !nested ==> !ok && same(a.Nodes,old(a.Nodes)) && same(b.Nodes,old(b.Nodes))
//@ inv [C18] len(old(a.Nodes)) == 0 ==> $i == 0 && len($l) == 0 && len(a.Nodes) == 0
//@ inv [C18] !(!apart && !nested)
//@ ensures [C18] first-child: (apart || nested) && len(old(a.Nodes)) == 0 ==> ok && len(a.Nodes) == 1 && a.Nodes[0] == b

//@ func (g *Graph) Append(seg) (h, ok)
//@ requires g.Root != nil
//@ requires 0 <= g.Root.from && g.Root.from <= g.Root.to && 0 <= seg.from && seg.from <= seg.to
//@ modifies key tok.Node.Nodes, key cell:*tok.Node, g.Root.Token
//@ let inside = old(g.Root.from) <= seg.from && seg.to <= old(g.Root.to)
//@ let some = len(old(g.Root.Nodes)) > 0
//@ ensures [C18] same-graph: h == g && g.Root == old(g.Root)
//@ ensures [C18] root-restored: !ok ==> g.Root.from == old(g.Root.from) && g.Root.to == old(g.Root.to)
//@ ensures [C18] root-spans: ok && !inside && some ==> g.Root.from == ite(seg.from < old(g.Root.from),seg.from,old(g.Root.from)) && g.Root.to == ite(seg.to > old(g.Root.to),seg.to,old(g.Root.to))
//@ ensures [C18] root-kept: ok && inside ==> g.Root.from == old(g.Root.from) && g.Root.to == old(g.Root.to)
//@ ensures [C18] first: !some ==> ok && len(g.Root.Nodes) == 1

// Equal compares the segments and the lists of children, node by node; no child is nil
//@ func (n *Node) Equal(oth) (ok)
//@ requires treeOk(n) && treeOk(oth)
//@ ensures [C18] same-tree: ok <==> nodeEq(n,oth)
//@ inv [C18] 0 <= $i && $i <= len(n.Nodes)
//@ inv [C18] nodesEq(n.Nodes,oth.Nodes,$i) == nodesEq(n.Nodes,oth.Nodes,0)
//@ inv [C18] treesOk(n.Nodes,$i) && treesOk(oth.Nodes,$i)

//@ func (g *Graph) Equal(oth) (ok)
//@ inline
//@ requires g.Root != nil && oth.Root != nil && treeOk(g.Root) && treeOk(oth.Root)
//@ ensures [C18] same-tree: ok <==> nodeEq(g.Root,oth.Root)

// Leafs returns the childless nodes from left to right (the trees are finite: otherwise it does not return)
//@ func (n *Node) appendLeafs(leafs) ()
//@ requires treeOk(n) && leafs != nil
//@ modifies *leafs, key tok.Segment
//@ let J = any(J)
//@ let k = old(len(*leafs))
//@ let x = (*leafs)[J]
//@ let y = leafNo(n,J-k)
//@ let z = leafsNo(n.Nodes,0,J-k)
//@ ensures [C18] grows: len(*leafs) >= k
//@ ensures [C18] all: len(*leafs) == k+leafCnt(n)
//@ ensures [C18] others-kept: 0 <= J && J < k ==> same(x.Info,old((*leafs)[J].Info)) && x.from == old((*leafs)[J].from) && x.to == old((*leafs)[J].to)
//@ ensures [C18] in-order: k <= J && J < len(*leafs) ==> same(x.Info,y.Info) && x.from == y.from && x.to == y.to
//@ inv [C18] 0 <= $i && $i <= len(n.Nodes)
//@ inv [C18] treesOk(n.Nodes,$i)
//@ inv [C18] len(*leafs)+leafsCnt(n.Nodes,$i) == k+leafsCnt(n.Nodes,0)
//@ inv [C18] len(*leafs) >= k
//@ inv [C18] 0 <= J && J < k ==> same(x.Info,old((*leafs)[J].Info)) && x.from == old((*leafs)[J].from) && x.to == old((*leafs)[J].to)
//@ inv [C18] k <= J && J < len(*leafs) ==> same(x.Info,z.Info) && x.from == z.from && x.to == z.to
//@ inv [C18] J >= len(*leafs) ==> z == leafsNo(n.Nodes,$i,J-len(*leafs))

//@ func (g *Graph) Leafs() (l)
//@ requires g.Root != nil && treeOk(g.Root)
//@ modifies key tok.Segment
//@ let J = any(J)
//@ let y = leafNo(g.Root,J)
//@ ensures [C18] all: len(l) == leafCnt(g.Root)
//@ ensures [C18] in-order: 0 <= J && J < len(l) ==> same(l[J].Info,y.Info) && l[J].from == y.from && l[J].to == y.to

//@ roots C18: NewGraph (*Graph).Append (*Node).Equal (*Graph).Equal (*Graph).Leafs
