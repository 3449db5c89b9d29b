#include <routingkit/permutation.h>
#include <routingkit/sort.h>
#include <routingkit/inverse_vector.h>
#include <routingkit/min_max.h>
namespace RoutingKit{
namespace vk{
// an arbitrary pure key function
struct Key{ unsigned operator()(unsigned x)const; };
// an arbitrary strict weak order
struct Less{ bool operator()(unsigned a, unsigned b)const; };
}
template std::vector<unsigned> apply_permutation(const std::vector<unsigned>&p, const std::vector<unsigned>&v);
template std::vector<unsigned> apply_permutation(const std::vector<unsigned>&p, std::vector<unsigned>&&v);
template std::vector<unsigned> apply_inverse_permutation(const std::vector<unsigned>&p, const std::vector<unsigned>&v);
template std::vector<unsigned> apply_inverse_permutation(const std::vector<unsigned>&p, std::vector<unsigned>&&v);
template void min_to(unsigned&x, const unsigned&y);
template void max_to(unsigned&x, const unsigned&y);
template unsigned first_min_element_position_of(const std::vector<unsigned>&v);
template unsigned first_max_element_position_of(const std::vector<unsigned>&v);
template const unsigned& min_element_of(const std::vector<unsigned>&v);
template const unsigned& min_element_of(const std::vector<unsigned>&v, const unsigned&);
template const unsigned& max_element_of(const std::vector<unsigned>&v);
template const unsigned& max_element_of(const std::vector<unsigned>&v, const unsigned&);
template bool is_sorted_using_less(const std::vector<unsigned>&v);
template bool is_sorted_using_key(const std::vector<unsigned>&v, unsigned, const vk::Key&);
template bool is_sorted_using_comparator(const std::vector<unsigned>&v, const vk::Less&);
template std::vector<unsigned> compute_sort_permutation_using_key(const std::vector<unsigned>&v, unsigned key_count, const vk::Key&);
template std::vector<unsigned> compute_stable_sort_permutation_using_key(const std::vector<unsigned>&v, unsigned key_count, const vk::Key&);
template std::vector<unsigned> compute_inverse_sort_permutation_using_key(const std::vector<unsigned>&v, unsigned key_count, const vk::Key&);
template std::vector<unsigned> compute_inverse_stable_sort_permutation_using_key(const std::vector<unsigned>&v, unsigned key_count, const vk::Key&);
template std::vector<unsigned> sort_using_key(const std::vector<unsigned>&v, unsigned key_count, const vk::Key&);
template std::vector<unsigned> sort_using_key(std::vector<unsigned>&&v, unsigned key_count, const vk::Key&);
template std::vector<unsigned> stable_sort_using_key(const std::vector<unsigned>&v, unsigned key_count, const vk::Key&);
template std::vector<unsigned> stable_sort_using_key(std::vector<unsigned>&&v, unsigned key_count, const vk::Key&);
template std::vector<unsigned> compute_sort_permutation_using_less(const std::vector<unsigned>&v);
template std::vector<unsigned> compute_stable_sort_permutation_using_less(const std::vector<unsigned>&v);
template std::vector<unsigned> compute_inverse_sort_permutation_using_less(const std::vector<unsigned>&v);
template std::vector<unsigned> compute_inverse_stable_sort_permutation_using_less(const std::vector<unsigned>&v);
template std::vector<unsigned> sort_using_less(const std::vector<unsigned>&v);
template std::vector<unsigned> stable_sort_using_less(const std::vector<unsigned>&v);
}
namespace RoutingKit{
template std::vector<unsigned> compute_sort_permutation_using_comparator(const std::vector<unsigned>&v, const vk::Less&);
template std::vector<unsigned> compute_stable_sort_permutation_using_comparator(const std::vector<unsigned>&v, const vk::Less&);
template std::vector<unsigned> compute_inverse_sort_permutation_using_comparator(const std::vector<unsigned>&v, const vk::Less&);
template std::vector<unsigned> compute_inverse_stable_sort_permutation_using_comparator(const std::vector<unsigned>&v, const vk::Less&);
template std::vector<unsigned> sort_using_comparator(const std::vector<unsigned>&v, const vk::Less&);
template std::vector<unsigned> sort_using_comparator(std::vector<unsigned>&&v, const vk::Less&);
template std::vector<unsigned> stable_sort_using_comparator(const std::vector<unsigned>&v, const vk::Less&);
template std::vector<unsigned> stable_sort_using_comparator(std::vector<unsigned>&&v, const vk::Less&);
template std::vector<unsigned> sort_using_less(std::vector<unsigned>&&v);
template std::vector<unsigned> stable_sort_using_less(std::vector<unsigned>&&v);
}
