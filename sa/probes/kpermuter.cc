// names every order-word operation at every width a node may have, so that all are compiled
#include "kpermuter.hh"
template class kpermuter<3>;
template class kpermuter<4>;
template class kpermuter<5>;
template class kpermuter<6>;
template class kpermuter<7>;
template class kpermuter<8>;
template class kpermuter<9>;
template class kpermuter<10>;
template class kpermuter<11>;
template class kpermuter<12>;
template class kpermuter<13>;
template class kpermuter<14>;
template class kpermuter<15>;
