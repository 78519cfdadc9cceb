// The definition of extremal regions and MSERs, computed naively: a union-find component tree over the sorted pixels.
// Nothing here is shared with the code under test.
#pragma once
#include "vh.h"
#include <float.h>
#include <unordered_map>

namespace oracle {

struct Params {
	int delta; float stable; float nms; float dup; int min_point; float max_ratio; int conn; int recursive;
	bool root_allowed;	// whether the whole image may be reported
	bool small_in_nms;	// whether regions below min_point take part in the local-minimum suppression
	Params() : delta(1), stable(0.5f), nms(0), dup(0.1f), min_point(20), max_ratio(0.25f), conn(4), recursive(20), root_allowed(false), small_in_nms(true) {}
	std::string str() const { return vh::fmt("delta=%d stable=%g nms=%g dup=%g min=%d maxr=%g conn=%d rec=%d", delta, stable, nms, dup, min_point, max_ratio, conn, recursive); }
};

struct Image {
	int w, h;
	std::vector<uint8_t> v;
	Image() : w(0), h(0) {}
	Image(int w_, int h_) : w(w_), h(h_), v((size_t)w_ * h_, 0) {}
	uint8_t& at(int x, int y) { return v[(size_t)y * w + x]; }
	uint8_t at(int x, int y) const { return v[(size_t)y * w + x]; }
};

inline uint64_t pix_hash(int x, int y) { return vh::mix(((uint64_t)(uint32_t)x << 32) | (uint32_t)y) | 1; }

struct Node {
	int level; int parent; int size; uint64_t hash;
	int left, top, right, bottom;
	float var; int flag;	// 0 unknown, 1 invalid, 2 valid
};

struct Tree {
	std::vector<Node> nodes;		// children before parents
	std::vector<int> pixel_node;	// node a pixel belongs to at its own level
	std::unordered_map<uint64_t, int> by_hash;

	// Levels are the gray levels after "v ^ mask"; mask restricts the pixels when not empty.
	void build(const Image& im, uint8_t gray_mask, int conn, const std::vector<uint8_t>* pixel_mask = NULL) {
		int n = im.w * im.h;
		std::vector<int> order;
		std::vector<std::vector<int> > bucket(256);
		for (int i = 0; i < n; ++i) if (pixel_mask == NULL || (*pixel_mask)[i]) bucket[im.v[i] ^ gray_mask].push_back(i);
		std::vector<int> uf(n, -1), node_of_root(n, -1);
		struct F { static int find(std::vector<int>& u, int a) { while (u[a] != a) { u[a] = u[u[a]]; a = u[a]; } return a; } };
		pixel_node.assign(n, -1);
		static const int dx8[8] = {1, 0, -1, 0, 1, 1, -1, -1}, dy8[8] = {0, 1, 0, -1, 1, -1, 1, -1};
		std::vector<std::vector<int> > pend(n);	// nodes merged into a root since its last node was made (this level)
		for (int g = 0; g < 256; ++g) {
			if (bucket[g].empty()) continue;
			for (size_t b = 0; b < bucket[g].size(); ++b) uf[bucket[g][b]] = bucket[g][b];
			for (size_t b = 0; b < bucket[g].size(); ++b) {
				int p = bucket[g][b], x = p % im.w, y = p / im.w;
				for (int d = 0; d < conn; ++d) {
					int xx = x + dx8[d], yy = y + dy8[d];
					if (xx < 0 || yy < 0 || xx >= im.w || yy >= im.h) continue;
					int q = yy * im.w + xx;
					if (uf[q] < 0) continue;
					int ra = F::find(uf, p), rb = F::find(uf, q);
					if (ra == rb) continue;
					// keep the pending lists at the surviving root
					if (pend[ra].size() < pend[rb].size()) std::swap(ra, rb);
					uf[rb] = ra;
					if (node_of_root[rb] >= 0) { pend[ra].push_back(node_of_root[rb]); node_of_root[rb] = -1; }
					pend[ra].insert(pend[ra].end(), pend[rb].begin(), pend[rb].end());
					std::vector<int>().swap(pend[rb]);
				}
			}
			// one node per component that contains a pixel of this level
			for (size_t b = 0; b < bucket[g].size(); ++b) {
				int p = bucket[g][b], r = F::find(uf, p), id;
				if (node_of_root[r] < 0 || nodes[node_of_root[r]].level != g) {
					id = (int)nodes.size();
					Node nd; nd.level = g; nd.parent = -1; nd.size = 0; nd.hash = 0; nd.left = nd.top = INT_MAX; nd.right = nd.bottom = -1; nd.var = -1; nd.flag = 0;
					nodes.push_back(nd);
					if (node_of_root[r] >= 0) pend[r].push_back(node_of_root[r]);
					for (size_t c = 0; c < pend[r].size(); ++c) absorb(id, pend[r][c]);
					pend[r].clear();
					node_of_root[r] = id;
				} else id = node_of_root[r];
				Node& nd = nodes[id];
				int x = p % im.w, y = p / im.w;
				nd.size++; nd.hash += pix_hash(x, y);
				nd.left = std::min(nd.left, x); nd.right = std::max(nd.right, x); nd.top = std::min(nd.top, y); nd.bottom = std::max(nd.bottom, y);
				pixel_node[p] = id;
			}
		}
		for (size_t i = 0; i < nodes.size(); ++i) by_hash[nodes[i].hash] = (int)i;
	}
	void absorb(int id, int c) {
		Node& nd = nodes[id]; Node& ch = nodes[c];
		ch.parent = id; nd.size += ch.size; nd.hash += ch.hash;
		nd.left = std::min(nd.left, ch.left); nd.right = std::max(nd.right, ch.right); nd.top = std::min(nd.top, ch.top); nd.bottom = std::max(nd.bottom, ch.bottom);
	}

	void variation(int delta) {
		for (size_t i = 0; i < nodes.size(); ++i) {
			int lim = nodes[i].level + delta, t = (int)i;
			while (nodes[t].parent >= 0 && nodes[nodes[t].parent].level <= lim) t = nodes[t].parent;
			if (nodes[t].parent >= 0 || nodes[t].level == lim) nodes[i].var = (nodes[t].size - nodes[i].size) / (float)nodes[i].size;
			else nodes[i].var = -1;
		}
	}

	// The MSER selection of the README / img_mser_base.h: stability, size limits, local minimum, duplicates.
	void select(const Params& pr, int total_w, int total_h) {
		int max_point = (int)(pr.max_ratio * total_h * total_w);
		variation(pr.delta);
		for (size_t i = 0; i < nodes.size(); ++i) {
			Node& n = nodes[i];
			n.flag = (n.var > pr.stable || n.size < pr.min_point || n.size > max_point || (n.parent < 0 && !pr.root_allowed)) ? 1 : 0;
		}
		if (pr.nms >= 0 && pr.delta > 0) {
			std::vector<char> kill(nodes.size(), 0);
			for (size_t i = 0; i < nodes.size(); ++i) {
				Node& n = nodes[i];
				if (n.parent < 0) continue;
				if (!pr.small_in_nms && n.size < pr.min_point) continue;
				Node& p = nodes[n.parent];
				if (n.var < 0 || p.var < 0 || p.level != n.level + 1) continue;
				double sub = p.var - n.var;
				if (sub > pr.nms) kill[n.parent] = 1;
				else if (-sub > pr.nms) kill[i] = 1;
			}
			for (size_t i = 0; i < nodes.size(); ++i) if (kill[i]) nodes[i].flag = 1;
		}
		std::vector<int> ord;
		for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i].flag == 0) ord.push_back((int)i);
		std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return nodes[a].level < nodes[b].level; });
		for (size_t i = 0; i < ord.size(); ++i) {
			if (nodes[ord[i]].flag != 0) continue;
			if (pr.dup <= 0) { nodes[ord[i]].flag = 2; continue; }
			std::vector<int> chain(1, ord[i]);
			grow(chain, ord[i], ord[i], pr.dup, max_point);
			int mid = (int)chain.size() / 2;
			if (mid > 0) grow(chain, chain[mid], chain.back(), pr.dup, max_point);
			for (size_t j = 0; j < chain.size(); ++j) nodes[chain[j]].flag = (int)j == mid ? 2 : 1;
		}
	}
	void grow(std::vector<int>& chain, int from, int begin, float dup, int max_point) {
		for (int p = nodes[begin].parent; p >= 0; p = nodes[p].parent) {
			if (nodes[p].size > max_point) break;
			if ((nodes[p].size - nodes[from].size) / (double)nodes[from].size > dup) break;
			if (nodes[p].flag == 0) chain.push_back(p);
		}
	}
};

}
