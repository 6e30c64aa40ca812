#include header.inc
#include order.inc
#include seqs.inc
#include bulk.inc
#include viter.inc
#include fxvec.inc
#include fxnode.inc
#include fxmap.inc
#include fxiter.inc
#include footer.inc
