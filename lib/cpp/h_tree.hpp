// C18: union-find trees
// tournament: clusters of equal size are merged, named by freely chosen members, so that trees of depth log2(n) arise
static void hTree(size_t n, size_t steps, bool symChecks, bool tournament = false) {
    std::vector<TreeNode> node;
    node.reserve(n);
    vector<char> check(n);
    for (size_t i = 0; i < n; i++) {
        node.emplace_back(10 + i);
        if (symChecks ? val(ctx::bit("check" + S(i))) : i % 3 != 0) {
            node[i].isCheck = true;
            node[i].checkVertices.emplace_back(10 + i);
            check[i] = 1;
        }
    }
    vector<size_t> cls(n);
    std::iota(cls.begin(), cls.end(), 0U);
    const auto verify = [&](const string& when) {
        for (size_t i = 0; i < n; i++) {
            auto* ri = TreeNode::Find(&node[i]);
            ctx::check(Bit(ri->parent == nullptr), "find ends at a root" + when);
            size_t size = 0;
            std::multiset<size_t> checks;
            for (size_t j = 0; j < n; j++) {
                const bool same = cls[i] == cls[j];
                ctx::check(Bit((TreeNode::Find(&node[j]) == ri) == same), "same root iff joined" + when);
                if (same) {
                    size++;
                    if (check[j] != 0) {
                        checks.insert(10 + j);
                    }
                }
            }
            ctx::check(Bit(ri->clusterSize == size), "the root counts its vertices" + when);
            ctx::check(Bit(std::multiset<size_t>(ri->checkVertices.begin(), ri->checkVertices.end()) == checks), "the root lists the check vertices" + when);
            // the children pointers reach exactly the cluster, every vertex once
            std::multiset<size_t> below;
            std::vector<TreeNode*> todo{ri};
            while (!todo.empty() && below.size() <= n) {
                auto* t = todo.back();
                todo.pop_back();
                below.insert(t->vertexIdx);
                for (auto* ch : t->children) {
                    ctx::check(Bit(ch->parent == t), "children and parents agree" + when);
                    todo.push_back(ch);
                }
            }
            std::multiset<size_t> want;
            for (size_t j = 0; j < n; j++) {
                if (cls[i] == cls[j]) {
                    want.insert(10 + j);
                }
            }
            ctx::check(Bit(below == want), "the tree below the root holds the cluster" + when);
            ctx::check(Bit(static_cast<size_t>(node[i].vertexIdx) == 10 + i && static_cast<bool>(node[i].isCheck) == (check[i] != 0)), "vertices keep their identity" + when);
        }
    };
    verify(" (initially)");
    for (size_t s = 0; s < steps; s++) {
        size_t op[2];
        if (tournament) {
            size_t width = 1;
            size_t first = s;
            for (size_t left = n / 2; first >= left; left /= 2) {
                first -= left;
                width *= 2;
            }
            const bool turned = width > 1 ? val(ctx::bit("turn" + S(s))) : s % 3 == 1;
            for (size_t q = 0; q < 2; q++) {
                size_t v = 0;
                for (size_t b = 0; (1U << b) < width; b++) {
                    v = 2 * v + (val(ctx::bit("op" + S(s) + "_" + S(q) + "_" + S(b))) ? 1 : 0);
                }
                op[turned ? 1 - q : q] = 2 * first * width + q * width + v;
            }
        } else {
            for (int q = 0; q < 2; q++) {
                size_t v = 0;
                for (unsigned b = 2; b-- > 0;) {
                    v = 2 * v + (val(ctx::bit("op" + S(s) + "_" + S(static_cast<size_t>(q)) + "_" + S(b))) ? 1 : 0);
                }
                if (n > 4) {
                    v = 2 * v + (val(ctx::bit("op" + S(s) + "_" + S(static_cast<size_t>(q)) + "_x")) ? 1 : 0);
                }
                ctx::assume(Bit(v < n));
                op[q] = v;
            }
        }
        TreeNode::Union(&node[op[0]], &node[op[1]]);
        const auto from = cls[op[0]];
        const auto to   = cls[op[1]];
        if (from != to) {
            ctx::reach("merge");
        } else {
            ctx::reach("no merge");
        }
        for (auto& c : cls) {
            if (c == from) {
                c = to;
            }
        }
        if (!tournament || s + 1 == steps) {
            verify(" after merging");
        }
    }
}
static void hTreeOrder() {
    for (size_t i = 0; i < 3; i++) {
        for (size_t j = 0; j < 3; j++) {
            const TreeNode a(i);
            const TreeNode b(j);
            ctx::check(Bit(static_cast<bool>(a == b) == (i == j) && static_cast<bool>(a < b) == (i < j) && static_cast<bool>(a <= b) == (i <= j) && static_cast<bool>(a > b) == (i > j) && static_cast<bool>(a >= b) == (i >= j)), "vertices compare by index");
        }
    }
    const TreeNode d;
    ctx::check(Bit(d.parent == nullptr && d.clusterSize == 1 && d.children.empty()), "a new vertex is a cluster of its own");
}
static void regTree() {
    for (const auto& t : vector<std::array<size_t, 3>>{{3, 3, 1}, {4, 2, 1}, {4, 3, 0}, {4, 3, 1}, {5, 3, 0}, {4, 4, 0}}) {
        table["trees " + S(t[0]) + " vertices " + S(t[1]) + " steps" + (t[2] ? "" : ", fixed checks")] = [t] { hTree(t[0], t[1], t[2] != 0); };
    }
    for (const size_t n : {4U, 8U}) {
        table["trees of " + S(n) + " by merging equal clusters"] = [n] { hTree(n, n - 1, false, true); };
    }
    table["order"] = hTreeOrder;
}
