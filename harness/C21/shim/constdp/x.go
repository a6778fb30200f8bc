package constdp

import (
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
)

// ZZCheck runs the concurrent checks of stretches.
func ZZCheck(hulls []node.Node, db *hdb.Hdb) map[*node.Node]struct{} {
	return findDeformableNodes(hulls, db)
}
