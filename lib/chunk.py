"""Destinations that hand out their space in pieces of one array: the text must not depend on the pieces."""
CHUNK = r'''
// the pieces are contiguous parts of one array; the first one may be arbitrarily small,
// the ones after a recycle() have at least 64 characters, as the contract says
template<class C> struct Chunky final : strf::destination<C> {
  C* b; C* w; int later; int recycles;
  Chunky(C* p, int first, int l) noexcept : strf::destination<C>(p,p+first), b(p), w(p), later(l), recycles(0) {}
  void bounds() noexcept { sa_assert(this->buffer_ptr()>=w && this->buffer_ptr()<=this->buffer_end(),"[safe] the position stays within the space"); }
  void recycle() noexcept override { bounds(); ++recycles; w=this->buffer_ptr(); this->set_buffer_end(w+later); }
  long finish() noexcept { bounds(); return this->buffer_ptr()-b; }
};
template<class C> struct ChunkyCr {
  using char_type=C; using destination_type=Chunky<C>; using finish_type=long;
  C* b; int first, later;
  Chunky<C> create() const noexcept { return Chunky<C>{b,first,later}; }
};
'''
