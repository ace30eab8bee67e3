// Stand-in for FLANN in harness builds: same interface as used by the planner,
// exact nearest neighbours by squared Euclidean distance.  Like FLANN it keeps
// pointers to the rows it is given.
#pragma once
#include <cstddef>
#include <vector>
#include <string>
#include <cmath>

namespace flann {
	template <typename T>
	class Matrix {
	public:
		typedef T type;
		size_t rows = 0, cols = 0, stride = 0;
		Matrix() = default;
		Matrix(T* data, size_t rows, size_t cols, size_t = 0) :
			rows(rows), cols(cols), data_(data) { }
		T* operator[](size_t r) const { return data_ + r * cols; }
		T* ptr() const { return data_; }

	private:
		T* data_ = nullptr;
	};

	struct IndexParams { };
	struct KDTreeSingleIndexParams : IndexParams {
		KDTreeSingleIndexParams(int = 10, bool = true, int = 0) { }
	};
	struct KDTreeIndexParams : IndexParams {
		KDTreeIndexParams(int = 4) { }
	};
	struct LinearIndexParams : IndexParams { };
	struct SearchParams {
		int checks;
		float eps;
		bool sorted;
		int max_neighbors = -1;
		SearchParams(int c = 32, float e = 0.0f, bool s = true) :
			checks(c), eps(e), sorted(s) { }
	};

	template <typename T>
	struct L2_Simple {
		typedef T ElementType;
		typedef T ResultType;
	};
	template <typename T>
	struct L2 {
		typedef T ElementType;
		typedef T ResultType;
	};

	template <typename Distance>
	class Index {
	public:
		typedef typename Distance::ElementType E;
		Index(const IndexParams&, Distance = Distance()) { }
		Index(const Matrix<E>& m, const IndexParams&, Distance = Distance()) { add(m); }
		void buildIndex() { }
		void buildIndex(const Matrix<E>& m)
		{
			points.clear();
			add(m);
		}
		void addPoints(const Matrix<E>& m, float = 2) { add(m); }
		size_t size() const { return points.size(); }
		size_t veclen() const { return cols; }
		E* getPoint(size_t i) { return points[i]; }

		int knnSearch(const Matrix<E>& q, Matrix<int>& idx, Matrix<E>& dist, size_t knn, const SearchParams&) const
		{
			int count = 0;
			for (size_t r = 0; r < q.rows; r++) {
				size_t n = 0;
				for (size_t p = 0; p < points.size(); p++) {
					E d = distance(q[r], points[p]);
					size_t i = n < knn ? n : knn;
					// insertion sort; the earlier point wins ties
					while (i > 0 && d < dist[r][i - 1])
						i--;
					if (i >= knn)
						continue;
					size_t last = n < knn ? n : knn - 1;
					for (size_t j = last; j > i; j--) {
						dist[r][j] = dist[r][j - 1];
						idx[r][j] = idx[r][j - 1];
					}
					dist[r][i] = d;
					idx[r][i] = (int)p;
					if (n < knn)
						n++;
				}
				count += (int)n;
			}
			return count;
		}
		int knnSearch(const Matrix<E>& q, std::vector<std::vector<int>>& idx, std::vector<std::vector<E>>& dist, size_t knn, const SearchParams& sp) const
		{
			idx.assign(q.rows, std::vector<int>(knn));
			dist.assign(q.rows, std::vector<E>(knn));
			int count = 0;
			for (size_t r = 0; r < q.rows; r++) {
				Matrix<E> qr(q[r], 1, q.cols);
				Matrix<int> ir(idx[r].data(), 1, knn);
				Matrix<E> dr(dist[r].data(), 1, knn);
				int n = knnSearch(qr, ir, dr, knn, sp);
				idx[r].resize(n);
				dist[r].resize(n);
				count += n;
			}
			return count;
		}
		int radiusSearch(const Matrix<E>& q, std::vector<std::vector<int>>& idx, std::vector<std::vector<E>>& dist, float radius, const SearchParams& sp) const
		{
			int count = 0;
			knnSearch(q, idx, dist, points.size(), sp);
			for (size_t r = 0; r < q.rows; r++) {
				size_t n = 0;
				while (n < dist[r].size() && dist[r][n] < radius)
					n++;
				idx[r].resize(n);
				dist[r].resize(n);
				count += (int)n;
			}
			return count;
		}

	private:
		E distance(const E* a, const E* b) const
		{
			E s = 0;
			for (size_t i = 0; i < cols; i++) {
				E d = a[i] - b[i];
				s += d * d;
			}
			return s;
		}
		void add(const Matrix<E>& m)
		{
			cols = m.cols;
			for (size_t r = 0; r < m.rows; r++)
				points.push_back(m[r]);
		}
		std::vector<E*> points;
		size_t cols = 0;
	};
}
