// Package gh has graph builders whose methods are scheduling points.
package gh

import (
	gngraph "gonum.org/v1/gonum/graph"
	"gonum.org/v1/gonum/graph/simple"
)

// Directed returns a weighted directed graph.
func Directed(point func()) *hwdg { return &hwdg{simple.NewWeightedDirectedGraph(0, 0), point} }

// Undirected returns a weighted undirected graph.
func Undirected(point func()) *hwug { return &hwug{simple.NewWeightedUndirectedGraph(0, 0), point} }

// directed is a directed graph.
type hwdg struct {
	*simple.WeightedDirectedGraph
	point func()
}

func (b *hwdg) Node(id int64) gngraph.Node { b.point(); return b.WeightedDirectedGraph.Node(id) }
func (b *hwdg) AddNode(n gngraph.Node)     { b.point(); b.WeightedDirectedGraph.AddNode(n); b.point() }
func (b *hwdg) RemoveNode(id int64) {
	b.point()
	b.WeightedDirectedGraph.RemoveNode(id)
	b.point()
}
func (b *hwdg) RemoveEdge(f, t int64) { b.point(); b.WeightedDirectedGraph.RemoveEdge(f, t) }
func (b *hwdg) SetWeightedEdge(e gngraph.WeightedEdge) {
	b.point()
	b.WeightedDirectedGraph.SetWeightedEdge(e)
	b.point()
}
func (b *hwdg) From(id int64) gngraph.Nodes { b.point(); return b.WeightedDirectedGraph.From(id) }
func (b *hwdg) WeightedEdge(f, t int64) gngraph.WeightedEdge {
	b.point()
	return b.WeightedDirectedGraph.WeightedEdge(f, t)
}
func (b *hwdg) WeightedEdges() gngraph.WeightedEdges {
	b.point()
	return b.WeightedDirectedGraph.WeightedEdges()
}
func (b *hwdg) Nodes() gngraph.Nodes { b.point(); return b.WeightedDirectedGraph.Nodes() }

type hwug struct {
	*simple.WeightedUndirectedGraph
	point func()
}

func (b *hwug) Node(id int64) gngraph.Node { b.point(); return b.WeightedUndirectedGraph.Node(id) }
func (b *hwug) AddNode(n gngraph.Node) {
	b.point()
	b.WeightedUndirectedGraph.AddNode(n)
	b.point()
}
func (b *hwug) RemoveNode(id int64) {
	b.point()
	b.WeightedUndirectedGraph.RemoveNode(id)
	b.point()
}
func (b *hwug) RemoveEdge(f, t int64) { b.point(); b.WeightedUndirectedGraph.RemoveEdge(f, t) }
func (b *hwug) SetWeightedEdge(e gngraph.WeightedEdge) {
	b.point()
	b.WeightedUndirectedGraph.SetWeightedEdge(e)
	b.point()
}
func (b *hwug) From(id int64) gngraph.Nodes { b.point(); return b.WeightedUndirectedGraph.From(id) }
func (b *hwug) WeightedEdge(f, t int64) gngraph.WeightedEdge {
	b.point()
	return b.WeightedUndirectedGraph.WeightedEdge(f, t)
}
func (b *hwug) WeightedEdges() gngraph.WeightedEdges {
	b.point()
	return b.WeightedUndirectedGraph.WeightedEdges()
}
func (b *hwug) Nodes() gngraph.Nodes { b.point(); return b.WeightedUndirectedGraph.Nodes() }
