// Adapter: the repository is written against nanoflann < 1.5 (SearchParams, radiusSearch into a
// vector of pairs); the installed library is 1.5.4. The search itself is the installed library's.
#pragma once
#include <cstddef>
#include <utility>
#include <vector>
#define nanoflann nanoflann_installed
#include_next <nanoflann.hpp>
#undef nanoflann
namespace nanoflann
{
using nanoflann_installed::KDTreeSingleIndexAdaptorParams;
using nanoflann_installed::L2_Simple_Adaptor;
using nanoflann_installed::L2_Adaptor;
using nanoflann_installed::L1_Adaptor;
using nanoflann_installed::ResultItem;
using nanoflann_installed::KNNResultSet;
using nanoflann_installed::RadiusResultSet;
using nanoflann_installed::SearchParameters;
struct SearchParams : public nanoflann_installed::SearchParameters
{
  SearchParams(int /*checks*/ = 32, float eps_ = 0, bool sorted_ = true)
  : nanoflann_installed::SearchParameters(eps_, sorted_) {}
};
template <typename Distance, class DatasetAdaptor, int DIM = -1, typename IndexType = unsigned>
class KDTreeSingleIndexAdaptor
  : public nanoflann_installed::KDTreeSingleIndexAdaptor<Distance, DatasetAdaptor, DIM, IndexType>
{
  using Base = nanoflann_installed::KDTreeSingleIndexAdaptor<Distance, DatasetAdaptor, DIM, IndexType>;
public:
  KDTreeSingleIndexAdaptor(const int dim, const DatasetAdaptor & data,
                           const KDTreeSingleIndexAdaptorParams & params = KDTreeSingleIndexAdaptorParams())
  : Base(dim, data, params) {}
  using Base::radiusSearch;
  template <typename I, typename D, typename P = nanoflann_installed::SearchParameters>
  size_t radiusSearch(const D * query, const D & radius, std::vector<std::pair<I, D>> & out,
                      const P & params = P()) const
  {
    std::vector<ResultItem<IndexType, D>> found;
    Base::radiusSearch(query, radius, found, params);
    out.clear();
    for (auto & f : found) out.emplace_back(static_cast<I>(f.first), f.second);
    return out.size();
  }
};
}  // namespace nanoflann
