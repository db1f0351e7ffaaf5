// Complete instantiations of the generator and elementary space classes.
// Parsed only.
#include <libcommute/libcommute.hpp>
namespace vp {
struct Idx {
  int tag;
};
bool operator==(Idx const&, Idx const&);
bool operator<(Idx const&, Idx const&);
bool operator>(Idx const&, Idx const&);
std::string to_string(Idx const&);
std::ostream& operator<<(std::ostream&, Idx const&);
} // namespace vp
#define VP_INST(...) \
  template class libcommute::generator<__VA_ARGS__>; \
  template class libcommute::generator_fermion<__VA_ARGS__>; \
  template class libcommute::generator_boson<__VA_ARGS__>; \
  template class libcommute::generator_spin<__VA_ARGS__>; \
  template class libcommute::elementary_space<__VA_ARGS__>; \
  template class libcommute::elementary_space_fermion<__VA_ARGS__>; \
  template class libcommute::elementary_space_boson<__VA_ARGS__>; \
  template class libcommute::elementary_space_spin<__VA_ARGS__>;
VP_INST(vp::Idx)
VP_INST(vp::Idx, vp::Idx)
VP_INST(libcommute::dynamic_indices::dyn_indices)
