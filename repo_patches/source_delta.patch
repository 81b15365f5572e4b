From 3fe4186ac31473ac6cbf2989408b83fd6c55cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 01/25] fix: cache: putting a link no longer drops other links
 of the same UID

---
 pkg/cache/memory/links.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 489f89d..53d313f 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -35,11 +35,11 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 
 	f, t := link.From(), link.To()
 
-	if c.from[f][t] == nil {
+	if c.from[f] == nil {
 		c.from[f] = make(map[uuid.UID]cache.Link)
 	}
 
-	if c.to[t][f] == nil {
+	if c.to[t] == nil {
 		c.to[t] = make(map[uuid.UID]cache.Link)
 	}
 
-- 
2.43.0


From d66f9de1208aebecfb8675f1db6c660671ec31f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 02/25] fix: cache: deleting a UID removes its links from both
 indexes

---
 pkg/cache/memory/links.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 53d313f..874068b 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -103,6 +103,12 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
+	for t := range c.from[uid] {
+		delete(c.to[t], uid)
+	}
+	for f := range c.to[uid] {
+		delete(c.from[f], uid)
+	}
 	delete(c.to, uid)
 	delete(c.from, uid)
 	return nil
-- 
2.43.0


From 21bb1fcc1203b795723a87ffbeefc83e42bde52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 03/25] fix: cache: index links by UID value instead of UID
 identity

---
 pkg/cache/memory/links.go | 46 ++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/pkg/cache/memory/links.go b/pkg/cache/memory/links.go
index 874068b..3177309 100644
--- a/pkg/cache/memory/links.go
+++ b/pkg/cache/memory/links.go
@@ -10,10 +10,10 @@ import (
 
 // Links in is-memory cache.Link cache.
 type Links struct {
-	// from indexes from->to links.
-	from map[uuid.UID]map[uuid.UID]cache.Link
-	// to indexes to<-from links.
-	to map[uuid.UID]map[uuid.UID]cache.Link
+	// from indexes from->to links by UID value.
+	from map[string]map[string]cache.Link
+	// to indexes to<-from links by UID value.
+	to map[string]map[string]cache.Link
 	// mu synchronizes access to Links
 	mu *sync.RWMutex
 }
@@ -21,8 +21,8 @@ type Links struct {
 // NewLinks creates a new Links cache and returns it
 func NewLinks() (*Links, error) {
 	return &Links{
-		from: make(map[uuid.UID]map[uuid.UID]cache.Link),
-		to:   make(map[uuid.UID]map[uuid.UID]cache.Link),
+		from: make(map[string]map[string]cache.Link),
+		to:   make(map[string]map[string]cache.Link),
 		mu:   &sync.RWMutex{},
 	}, nil
 }
@@ -33,14 +33,14 @@ func (c *Links) put(ctx context.Context, link cache.Link, opts ...cache.Option)
 		apply(&copts)
 	}
 
-	f, t := link.From(), link.To()
+	f, t := link.From().String(), link.To().String()
 
 	if c.from[f] == nil {
-		c.from[f] = make(map[uuid.UID]cache.Link)
+		c.from[f] = make(map[string]cache.Link)
 	}
 
 	if c.to[t] == nil {
-		c.to[t] = make(map[uuid.UID]cache.Link)
+		c.to[t] = make(map[string]cache.Link)
 	}
 
 	if copts.Upsert {
@@ -66,7 +66,7 @@ func (c *Links) Put(ctx context.Context, link cache.Link, opts ...cache.Option)
 	return c.put(ctx, link, opts...)
 }
 
-func (c *Links) get(ctx context.Context, uid uuid.UID, index map[uuid.UID]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
+func (c *Links) get(ctx context.Context, uid uuid.UID, index map[string]cache.Link, opts ...cache.Option) ([]cache.Link, error) {
 	lx := make([]cache.Link, len(index))
 
 	i := 0
@@ -83,7 +83,7 @@ func (c *Links) GetFrom(ctx context.Context, uid uuid.UID, opts ...cache.Option)
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if from, ok := c.from[uid]; ok {
+	if from, ok := c.from[uid.String()]; ok {
 		return c.get(ctx, uid, from, opts...)
 	}
 
@@ -95,7 +95,7 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 	c.mu.RLock()
 	defer c.mu.RUnlock()
 
-	if to, ok := c.to[uid]; ok {
+	if to, ok := c.to[uid.String()]; ok {
 		return c.get(ctx, uid, to, opts...)
 	}
 
@@ -103,14 +103,16 @@ func (c *Links) GetTo(ctx context.Context, uid uuid.UID, opts ...cache.Option) (
 }
 
 func (c *Links) delete(ctx context.Context, uid uuid.UID, opts ...cache.Option) error {
-	for t := range c.from[uid] {
-		delete(c.to[t], uid)
+	id := uid.String()
+
+	for t := range c.from[id] {
+		delete(c.to[t], id)
 	}
-	for f := range c.to[uid] {
-		delete(c.from[f], uid)
+	for f := range c.to[id] {
+		delete(c.from[f], id)
 	}
-	delete(c.to, uid)
-	delete(c.from, uid)
+	delete(c.to, id)
+	delete(c.from, id)
 	return nil
 }
 
@@ -126,8 +128,8 @@ func (c *Links) Clear(ctx context.Context, opts ...cache.Option) error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	c.from = make(map[uuid.UID]map[uuid.UID]cache.Link)
-	c.to = make(map[uuid.UID]map[uuid.UID]cache.Link)
+	c.from = make(map[string]map[string]cache.Link)
+	c.to = make(map[string]map[string]cache.Link)
 
 	return nil
 }
@@ -154,7 +156,7 @@ func (c *Links) BulkGetFrom(ctx context.Context, uids []uuid.UID, opts ...cache.
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		from, ok := c.from[uid]
+		from, ok := c.from[uid.String()]
 		if !ok {
 			continue
 		}
@@ -177,7 +179,7 @@ func (c *Links) BulkGetTo(ctx context.Context, uids []uuid.UID, opts ...cache.Op
 
 	for _, uid := range uids {
 		lx := []cache.Link{}
-		to, ok := c.to[uid]
+		to, ok := c.to[uid.String()]
 		if !ok {
 			continue
 		}
-- 
2.43.0


From 54dee7c819d567db66f71ed3cf6b2bd46862b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 04/25] fix: graph: release the read lock taken by DOT

---
 pkg/graph/memory/wg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 557325d..122f7b0 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -411,7 +411,7 @@ func (g *WG) DOTAttributers() (graph, node, edge encoding.Attributer) {
 // DOT returns the GrapViz dot representation of the graph.
 func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
-	defer g.mu.RLock()
+	defer g.mu.RUnlock()
 
 	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
 	if err != nil {
-- 
2.43.0


From 5190eaba6bdeea3308797e1967a20761263fa04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 05/25] fix: graph: one node per UID, upsert replaces the node
 everywhere, prepared nodes never share an ID

---
 pkg/graph/memory/wg.go | 72 ++++++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 20 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 122f7b0..91d6508 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -28,6 +28,8 @@ type WG struct {
 	dotid string
 	// nodes maps graph nodes
 	nodes map[string]graph.Node
+	// nextID is the lowest node ID that has not been handed out yet
+	nextID *int64
 	// dot are graph DOT options
 	dot graph.DOTOptions
 }
@@ -55,6 +57,7 @@ func NewWG(wg WeightedGraphBuilder, opts ...graph.Option) (*WG, error) {
 		uid:                  uid,
 		dotid:                dotid,
 		nodes:                make(map[string]graph.Node),
+		nextID:               new(int64),
 		dot:                  gopts.DOTOptions,
 	}, nil
 }
@@ -64,33 +67,64 @@ func (g WG) UID() uuid.UID {
 	return g.uid
 }
 
+// newID returns an ID which is neither used by any node
+// in the graph nor has been returned by newID before.
+func (g *WG) newID() int64 {
+	for g.WeightedGraphBuilder.Node(*g.nextID) != nil {
+		*g.nextID++
+	}
+
+	id := *g.nextID
+	*g.nextID++
+
+	return id
+}
+
 // NewNode creates a new graph node and returns it.
 // NOTE: this is a convenience method that creates
 // the new *memory.Node such that it makes sure its
-// ID() does not ireturn an ID that already exist in the graph.
+// ID() does not return an ID that already exists in the graph
+// or that has been given to another node by NewNode.
 func (g *WG) NewNode(ctx context.Context, ent graph.Entity, opts ...graph.Option) (graph.Node, error) {
-	gopts := graph.Options{}
-	for _, apply := range opts {
-		apply(&gopts)
-	}
-
 	g.mu.Lock()
-	gnode := g.WeightedGraphBuilder.NewNode()
+	id := g.newID()
 	g.mu.Unlock()
 
-	node, err := NewNode(gnode.ID(), ent, opts...)
+	node, err := NewNode(id, ent, opts...)
 	if err != nil {
 		return nil, err
 	}
 
-	g.mu.Lock()
-	if n, ok := g.nodes[node.UID().String()]; ok {
-		g.mu.Unlock()
-		return n, nil
+	return node, nil
+}
+
+// replaceNode replaces old with n in the graph and
+// makes n the end point of all the edges of old.
+func (g *WG) replaceNode(old, n *Node) {
+	if node := g.WeightedGraphBuilder.Node(n.ID()); node != nil && n.ID() != old.ID() {
+		panic(fmt.Sprintf("memory: node ID collision: %d", n.ID()))
+	}
+
+	var edges []*Edge
+	for _, we := range gonum.WeightedEdgesOf(g.WeightedGraphBuilder.WeightedEdges()) {
+		e := *we.(*Edge)
+		switch old.ID() {
+		case e.from.ID():
+			e.from = n
+		case e.to.ID():
+			e.to = n
+		default:
+			continue
+		}
+		edges = append(edges, &e)
 	}
-	g.mu.Unlock()
 
-	return node, nil
+	g.WeightedGraphBuilder.RemoveNode(old.ID())
+	g.WeightedGraphBuilder.AddNode(n)
+
+	for _, e := range edges {
+		g.SetWeightedEdge(e)
+	}
 }
 
 // AddNode adds node n to the graph.
@@ -113,14 +147,12 @@ func (g *WG) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) er
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
-	if node := g.WeightedGraphBuilder.Node(gnode.ID()); node != nil {
-		if _, ok := g.nodes[n.UID().String()]; ok {
-			if !gopts.Upsert {
-				return graph.ErrDuplicateNode
-			}
-			g.nodes[n.UID().String()] = n
+	if node, ok := g.nodes[n.UID().String()]; ok {
+		if !gopts.Upsert {
+			return graph.ErrDuplicateNode
 		}
 
+		g.replaceNode(node.(*Node), gnode)
 		g.nodes[n.UID().String()] = n
 
 		return nil
-- 
2.43.0


From 99d0f9bb87a1a183e66200ea12b671dd4b797246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 06/25] fix: graph: link nodes under a single lock

---
 pkg/graph/memory/wg.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 91d6508..016757d 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -220,33 +220,27 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
 // It returns error if either of the nodes does not exist in the graph.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
-	g.mu.RLock()
-	e, err := g.Edge(ctx, from, to)
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
+	e, err := g.edge(from, to)
 	if err != nil && !errors.Is(err, graph.ErrEdgeNotExist) {
-		g.mu.RUnlock()
 		return nil, err
 	}
 
 	if e != nil {
-		g.mu.RUnlock()
 		return e, nil
 	}
 
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
-
-	g.mu.Lock()
-	defer g.mu.Unlock()
 
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
@@ -258,11 +252,7 @@ func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option)
 	return edge, nil
 }
 
-// Edge returns edge between nodes with the given UIDs.
-func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
-	g.mu.RLock()
-	defer g.mu.RUnlock()
-
+func (g *WG) edge(uid, vid uuid.UID) (graph.Edge, error) {
 	from, ok := g.nodes[uid.String()]
 	if !ok {
 		return nil, graph.ErrNodeNotFound
@@ -283,6 +273,14 @@ func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
 	return nil, graph.ErrEdgeNotExist
 }
 
+// Edge returns edge between nodes with the given UIDs.
+func (g *WG) Edge(ctx context.Context, uid, vid uuid.UID) (graph.Edge, error) {
+	g.mu.RLock()
+	defer g.mu.RUnlock()
+
+	return g.edge(uid, vid)
+}
+
 // Edges returns all the edges (lines) from u to v.
 func (g *WG) Edges(ctx context.Context) ([]graph.Edge, error) {
 	g.mu.RLock()
-- 
2.43.0


From 2077ffd44ea4adfced1071b6384cb30b75b6cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 07/25] fix: graph: remove nodes and links under a single lock

---
 pkg/graph/memory/wg.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 016757d..689a2c3 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -194,22 +194,19 @@ func (g *WG) Nodes(ctx context.Context) ([]graph.Node, error) {
 
 // RemoveNode removes the node with the given uid from graph.
 func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	node, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	gnode, ok := node.(*Node)
 	if !ok {
 		return graph.ErrInvalidNode
 	}
 
-	g.mu.Lock()
-	defer g.mu.Unlock()
-
 	g.WeightedGraphBuilder.RemoveNode(gnode.ID())
 
 	delete(g.nodes, uid.String())
@@ -323,26 +320,23 @@ func (g *WG) From(ctx context.Context, uid uuid.UID) ([]graph.Node, error) {
 // Unlink removes the link between from and to nodes.
 // If neither of the nodes with given UIDs exist it returns nil.
 func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option) error {
-	g.mu.RLock()
+	g.mu.Lock()
+	defer g.mu.Unlock()
+
 	f, ok := g.nodes[from.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
 
 	t, ok := g.nodes[to.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil
 	}
-	g.mu.RUnlock()
 
 	// NOTE: it's safe to switch type without checking if possible
 	// the nodes in g.nodes are guaranteed to be *Nodes since the only
 	// way to add nodes in is via AddNode which does type assertion
-	g.mu.Lock()
 	g.WeightedGraphBuilder.RemoveEdge(f.(*Node).ID(), t.(*Node).ID())
-	g.mu.Unlock()
 
 	return nil
 }
-- 
2.43.0


From d13d9a0f0c4ed5a8bc0b1282efee1a47fc9f3ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 08/25] fix: graph: refuse to link a node to itself instead of
 panicking

---
 pkg/graph/memory/wg.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 689a2c3..5b104be 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -215,7 +215,8 @@ func (g *WG) RemoveNode(ctx context.Context, uid uuid.UID, opts ...graph.Option)
 }
 
 // Link creates a new link (edge) between from and to and returns it or it returns the existing edge.
-// It returns error if either of the nodes does not exist in the graph.
+// It returns error if either of the nodes does not exist in the graph
+// and graph.ErrUnsupported when linking a node to itself.
 func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option) (graph.Edge, error) {
 	g.mu.Lock()
 	defer g.mu.Unlock()
@@ -239,6 +240,11 @@ func (g *WG) Link(ctx context.Context, from, to uuid.UID, opts ...graph.Option)
 		return nil, graph.ErrNodeNotFound
 	}
 
+	// NOTE: the underlying graphs do not support self edges
+	if f.(*Node).ID() == t.(*Node).ID() {
+		return nil, graph.ErrUnsupported
+	}
+
 	edge, err := NewEdge(f.(*Node), t.(*Node), opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a97780861e1c1e408b873520745d2e5001aa311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 09/25] fix: graph: subgraph links carry their own attributes
 and weight

---
 pkg/graph/memory/wg.go | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 5b104be..7d93e19 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -350,12 +350,12 @@ func (g *WG) Unlink(ctx context.Context, from, to uuid.UID, opts ...graph.Option
 // SubGraph returns the subgraph of the graph rooted in the node with the given uid up to the given depth.
 func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...graph.Option) (graph.Graph, error) {
 	g.mu.RLock()
+	defer g.mu.RUnlock()
+
 	root, ok := g.nodes[uid.String()]
 	if !ok {
-		g.mu.RUnlock()
 		return nil, graph.ErrNodeNotFound
 	}
-	g.mu.RUnlock()
 
 	sg, err := NewWDG(opts...)
 	if err != nil {
@@ -381,11 +381,9 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 		Visit: visit,
 	}
 
-	g.mu.RLock()
 	_ = bfs.Walk(g.WeightedGraphBuilder, root.(*Node), func(n gonum.Node, d int) bool {
 		return d == depth
 	})
-	g.mu.RUnlock()
 
 	if sgErr != nil {
 		return nil, sgErr
@@ -397,24 +395,21 @@ func (g *WG) SubGraph(ctx context.Context, uid uuid.UID, depth int, opts ...grap
 			pnode := nodes.Node()
 			peer := pnode.(*Node)
 			if to, ok := sgNodes[peer.ID()]; ok {
-				if edges := g.WeightedEdges(); edges != nil {
-					for edges.Next() {
-						we := edges.WeightedEdge()
-						e := we.(*Edge)
-
-						a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
-						if err != nil {
-							return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
-						}
-
-						opts := []graph.Option{
-							graph.WithAttrs(a),
-							graph.WithWeight(e.Weight()),
-						}
-
-						if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
-							return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
-						}
+				if we := g.WeightedEdge(id, peer.ID()); we != nil {
+					e := we.(*Edge)
+
+					a, err := memattrs.NewCopyFrom(ctx, e.Attrs())
+					if err != nil {
+						return nil, fmt.Errorf("subgraph %s attr copy error: %v", sg.UID(), err)
+					}
+
+					opts := []graph.Option{
+						graph.WithAttrs(a),
+						graph.WithWeight(e.Weight()),
+					}
+
+					if _, err := sg.Link(ctx, node.UID(), to.UID(), opts...); err != nil {
+						return nil, fmt.Errorf("subgraph %s link error: %v", sg.UID(), err)
 					}
 				}
 			}
-- 
2.43.0


From 468b99371b7da5ac1596c1dc231a35e4c7e940b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 10/25] fix: store: BulkGet returns every requested entity

---
 pkg/store/memory/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 0567a14..936b9f3 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -207,6 +207,7 @@ func (m *Memory) BulkGet(ctx context.Context, uids []uuid.UID, opts ...store.Opt
 			return nil, err
 		}
 		ents[i] = e
+		i++
 	}
 	return ents, nil
 }
-- 
2.43.0


From 21f93bfb4fa99765c5dac092682bb2d5bbaa57f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 11/25] fix: attrs: copying nil attributes gives empty
 attributes

---
 pkg/attrs/memory/memory.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/attrs/memory/memory.go b/pkg/attrs/memory/memory.go
index b8b916e..d2ea06c 100644
--- a/pkg/attrs/memory/memory.go
+++ b/pkg/attrs/memory/memory.go
@@ -21,12 +21,12 @@ func New() *Attrs {
 func NewCopyFrom(ctx context.Context, a attrs.Attrs) (*Attrs, error) {
 	attrs := make(Attrs)
 
-	keys, err := a.Keys(ctx)
-	if err != nil {
-		return nil, err
-	}
-
 	if a != nil {
+		keys, err := a.Keys(ctx)
+		if err != nil {
+			return nil, err
+		}
+
 		for _, k := range keys {
 			attrs[k], err = a.Get(ctx, k)
 			if err != nil {
-- 
2.43.0


From ae2df25057e74025183d37dd2f8285b063fce257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 12/25] fix: store: keep the attributes of stored entities

---
 pkg/store/memory/store.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/store/memory/store.go b/pkg/store/memory/store.go
index 936b9f3..01e09bf 100644
--- a/pkg/store/memory/store.go
+++ b/pkg/store/memory/store.go
@@ -10,6 +10,7 @@ import (
 	"github.com/milosgajdos/netscrape/pkg/store"
 	"github.com/milosgajdos/netscrape/pkg/uuid"
 
+	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
 	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
 )
 
@@ -71,7 +72,16 @@ func (m *Memory) add(ctx context.Context, e store.Entity, opts ...store.Option)
 		apply(&aopts)
 	}
 
-	n, err := m.g.NewNode(ctx, e, graph.WithAttrs(aopts.Attrs))
+	a := aopts.Attrs
+	if a == nil {
+		var err error
+		a, err = memattrs.NewCopyFrom(ctx, e.Attrs())
+		if err != nil {
+			return err
+		}
+	}
+
+	n, err := m.g.NewNode(ctx, e, graph.WithAttrs(a))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3df3947bd865825bf8f7a9182f3111bf5ba0a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 13/25] fix: graph: edges have the default weight unless given
 one

---
 pkg/graph/memory/edge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/edge.go b/pkg/graph/memory/edge.go
index e083b24..350180c 100644
--- a/pkg/graph/memory/edge.go
+++ b/pkg/graph/memory/edge.go
@@ -28,7 +28,7 @@ type Edge struct {
 // If both WithUID and WithDOTID are provided
 // DOTID overrides the UID value.
 func NewEdge(from, to *Node, opts ...graph.Option) (*Edge, error) {
-	eopts := graph.Options{}
+	eopts := graph.Options{Weight: graph.DefaultWeight}
 	for _, apply := range opts {
 		apply(&eopts)
 	}
-- 
2.43.0


From f8719d21fe194025431f40e35a597f298cf2cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 14/25] fix: graph: DOT carries the DOT ID of the graph

---
 pkg/graph/memory/wg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/graph/memory/wg.go b/pkg/graph/memory/wg.go
index 7d93e19..9841334 100644
--- a/pkg/graph/memory/wg.go
+++ b/pkg/graph/memory/wg.go
@@ -438,7 +438,7 @@ func (g *WG) DOT() (string, error) {
 	g.mu.RLock()
 	defer g.mu.RUnlock()
 
-	b, err := dot.Marshal(g.WeightedGraphBuilder, "", "", "  ")
+	b, err := dot.Marshal(g.WeightedGraphBuilder, g.dotid, "", "  ")
 	if err != nil {
 		return "", fmt.Errorf("DOT marshal error: %w", err)
 	}
-- 
2.43.0


From 0d7ef9d9ed3d1d09009f4eedd59684623686bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 15/25] fix: broker: a session can only be closed by its own
 context

---
 pkg/broker/memory/memory.go | 39 ++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index cfeedf0..127654f 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -66,16 +66,20 @@ func New(opts ...broker.Option) (*Memory, error) {
 	}, nil
 }
 
-// run starts the broker.
-func (m *Memory) run(ctx context.Context) {
-	defer m.Close()
+// run runs the broker session identified by its exit channel.
+func (m *Memory) run(ctx context.Context, exit chan struct{}, ctl <-chan sub) {
+	defer func() {
+		m.Lock()
+		defer m.Unlock()
+		m.closeSession(exit)
+	}()
 	for {
 		select {
 		case <-ctx.Done():
 			return
-		case <-m.exit:
+		case <-exit:
 			return
-		case sub := <-m.ctl:
+		case sub := <-ctl:
 			m.Lock()
 			if _, ok := m.subs[sub.topic]; ok {
 				delete(m.subs[sub.topic], sub.id)
@@ -87,15 +91,12 @@ func (m *Memory) run(ctx context.Context) {
 
 // Open opens a new broker session.
 func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
-	m.RLock()
+	m.Lock()
+	defer m.Unlock()
+
 	if m.connected {
-		m.RUnlock()
 		return nil
 	}
-	m.RUnlock()
-
-	m.Lock()
-	defer m.Unlock()
 
 	m.connected = true
 	m.exit = make(chan struct{})
@@ -103,7 +104,7 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 
 	// TODO: we should make sure Close() stops this goroutine
 	// Try adding it to a sync.WaitGroup
-	go m.run(ctx)
+	go m.run(ctx, m.exit, m.ctl)
 
 	return nil
 }
@@ -201,8 +202,16 @@ func (m *Memory) Close() error {
 	m.Lock()
 	defer m.Unlock()
 
-	if !m.connected {
-		return nil
+	m.closeSession(m.exit)
+
+	return nil
+}
+
+// closeSession closes the session with the given exit channel
+// unless it has already been closed. It must be called with m locked.
+func (m *Memory) closeSession(exit chan struct{}) {
+	if !m.connected || m.exit != exit {
+		return
 	}
 
 	close(m.exit)
@@ -216,6 +225,4 @@ func (m *Memory) Close() error {
 	}
 
 	m.connected = false
-
-	return nil
 }
-- 
2.43.0


From c8bd8909023032854809a96a0ad4296a1bd20048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 16/25] fix: broker: drop topics without subscribers when the
 session ends

---
 pkg/broker/memory/memory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 127654f..8d5e147 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -221,6 +221,9 @@ func (m *Memory) closeSession(exit chan struct{}) {
 			delete(m.subs[topic], id)
 		}
 		delete(m.subs, topic)
+	}
+
+	for topic := range m.topics {
 		delete(m.topics, topic)
 	}
 
-- 
2.43.0


From 6b1627993c7d0be487ec6a01ea48e475ec7f6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 17/25] fix: broker: cancelling a publish no longer closes the
 session, unpublished messages are reported

---
 pkg/broker/memory/memory.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 8d5e147..8209823 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -112,9 +112,9 @@ func (m *Memory) Open(ctx context.Context, opts ...broker.Option) error {
 func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, timeout time.Duration) error {
 	select {
 	case <-ctx.Done():
-		return m.Close()
-	case <-m.exit:
-		return nil
+		return ctx.Err()
+	case <-q.exit:
+		return broker.ErrNotConnected
 	case <-time.After(timeout):
 		return broker.ErrTimeout
 	case q.msg <- msg:
-- 
2.43.0


From ff5cb950a598831b2d4fe160de0cd0d6d39d44b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 18/25] fix: broker: publish and subscribe never create a topic
 outside a session

---
 pkg/broker/memory/memory.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pkg/broker/memory/memory.go b/pkg/broker/memory/memory.go
index 8209823..5a2f33f 100644
--- a/pkg/broker/memory/memory.go
+++ b/pkg/broker/memory/memory.go
@@ -126,13 +126,6 @@ func (m *Memory) publishMsg(ctx context.Context, q queue, msg broker.Message, ti
 // If the topic does not exist, it is automatically created.
 // NOTE: Pub is a blocking call!
 func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts ...broker.Option) error {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	popts := broker.Options{}
 	for _, apply := range opts {
 		apply(&popts)
@@ -144,6 +137,11 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 	}
 
 	m.Lock()
+	if !m.connected {
+		m.Unlock()
+		return broker.ErrNotConnected
+	}
+
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
@@ -159,18 +157,15 @@ func (m *Memory) Pub(ctx context.Context, topic string, msg broker.Message, opts
 
 // Sub subscribes to the given topic.
 func (m *Memory) Sub(ctx context.Context, topic string, opts ...broker.Option) (broker.Subscriber, error) {
-	m.RLock()
-	if !m.connected {
-		m.RUnlock()
-		return nil, broker.ErrNotConnected
-	}
-	m.RUnlock()
-
 	uid := memuid.New()
 
 	m.Lock()
 	defer m.Unlock()
 
+	if !m.connected {
+		return nil, broker.ErrNotConnected
+	}
+
 	q, ok := m.topics[topic]
 	if !ok {
 		q = queue{
-- 
2.43.0


From ac3b0f17bab40ab9c869962efd8b213e5aa3efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 19/25] fix: broker: concurrent unsubscribes no longer panic

---
 pkg/broker/memory/subscriber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 881e479..5222d87 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -31,8 +31,8 @@ func (s *Subscriber) Topic(ctx context.Context, opts ...broker.Option) (string,
 
 // Unsubscribe unsubscribes from the topic.
 func (s *Subscriber) Unsubscribe(ctx context.Context, opts ...broker.Option) error {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	if s.active {
 		close(s.exit)
-- 
2.43.0


From 69149ac9a018fc285106e6e0727435fe68caeaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 20/25] fix: broker: subscribers are inactive after their
 session has ended

---
 pkg/broker/memory/subscriber.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/broker/memory/subscriber.go b/pkg/broker/memory/subscriber.go
index 5222d87..57ca60a 100644
--- a/pkg/broker/memory/subscriber.go
+++ b/pkg/broker/memory/subscriber.go
@@ -69,6 +69,13 @@ func (s *Subscriber) Receive(ctx context.Context, h broker.Handler, opts ...brok
 	}
 	s.RUnlock()
 
+	// NOTE: subscribers become inactive when their session ends
+	select {
+	case <-s.queue.exit:
+		return broker.ErrSubscriptionInactive
+	default:
+	}
+
 	select {
 	case <-ctx.Done():
 		return nil
-- 
2.43.0


From f7493e9bfe6b7176fa53e2a0e47e04744be2122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 21/25] fix: digester: return when the context is cancelled
 instead of spinning

---
 pkg/broker/digester/simple/digester.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index acc1a8b..7b634c9 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -31,6 +31,9 @@ func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.H
 		if err := sub.Receive(ctx, h); err != nil {
 			return err
 		}
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 	}
 }
 
-- 
2.43.0


From e115e6628c380d1957b76ae4410e4ea41ca0a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 22/25] fix: digester: use the handler given at construction

---
 pkg/broker/digester/simple/digester.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/digester/simple/digester.go b/pkg/broker/digester/simple/digester.go
index 7b634c9..4c300d5 100644
--- a/pkg/broker/digester/simple/digester.go
+++ b/pkg/broker/digester/simple/digester.go
@@ -40,7 +40,7 @@ func (d *Digester) handle(ctx context.Context, sub broker.Subscriber, h broker.H
 // Digest reads data from broker via sub and handles it via an optional handler.
 // If no handler has been given, the message payload is copied to stdout.
 func (d *Digester) Digest(ctx context.Context, sub broker.Subscriber, opts ...digester.Option) error {
-	dopts := digester.Options{}
+	dopts := d.opts
 	for _, apply := range opts {
 		apply(&dopts)
 	}
-- 
2.43.0


From 8e31c85cc273e38da89f25bc3e56416589ca2552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 23/25] fix: ingester: use the marshaler given at construction

---
 pkg/broker/ingester/simple/ingester.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/broker/ingester/simple/ingester.go b/pkg/broker/ingester/simple/ingester.go
index adacc20..d2ac488 100644
--- a/pkg/broker/ingester/simple/ingester.go
+++ b/pkg/broker/ingester/simple/ingester.go
@@ -27,7 +27,7 @@ func NewIngester(opts ...ingester.Option) (*Ingester, error) {
 
 // Ingest ingests messages to the broker marshaled with the given marshaler.
 func (in *Ingester) Ingest(ctx context.Context, b broker.Broker, topic string, msgType broker.Type, data interface{}, opts ...ingester.Option) error {
-	ropts := ingester.Options{}
+	ropts := in.opts
 	for _, apply := range opts {
 		apply(&ropts)
 	}
-- 
2.43.0


From 43572f671c31acccd647ce7f37af36c1a6374afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 24/25] fix: runner: hand all configured options to the scraper

---
 runner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index 7a62861..f2eebd9 100644
--- a/runner.go
+++ b/runner.go
@@ -25,10 +25,10 @@ func NewRunner(opts ...Option) (*Runner, error) {
 
 // Run runs netscraping using scraper s.
 func (r *Runner) Run(ctx context.Context, p plan.Plan, s Scraper, opts ...Option) error {
-	sopts := Options{}
+	sopts := r.opts
 	for _, apply := range opts {
 		apply(&sopts)
 	}
 
-	return s.Scrape(ctx, p, WithBroker(sopts.Broker))
+	return s.Scrape(ctx, p, WithStore(sopts.Store), WithBroker(sopts.Broker), WithMarshaler(sopts.Marshaler))
 }
-- 
2.43.0


From fcba7839ce086bdd78c739a7865b3525be1ba161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 25/25] fix: runner: report a missing plan

---
 runner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runner.go b/runner.go
index f2eebd9..b83eb16 100644
--- a/runner.go
+++ b/runner.go
@@ -24,7 +24,12 @@ func NewRunner(opts ...Option) (*Runner, error) {
 }
 
 // Run runs netscraping using scraper s.
+// It returns ErrMissingPlan if no plan is given.
 func (r *Runner) Run(ctx context.Context, p plan.Plan, s Scraper, opts ...Option) error {
+	if p == nil {
+		return ErrMissingPlan
+	}
+
 	sopts := r.opts
 	for _, apply := range opts {
 		apply(&sopts)
-- 
2.43.0

