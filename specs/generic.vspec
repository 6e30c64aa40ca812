#include header.inc
#include order.inc
#include bulk.inc
#include map.inc
#source src/lib.rs
#include entry.inc
#include serde.inc
#include footer.inc
