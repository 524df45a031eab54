// written by tools/gen_cmtab.py
static const struct { int k; long D; const char *q, *n; } cmtab[] = {
{ 6, 11, "5", "3" },
{ 6, 11, "37", "31" },
{ 6, 11, "307552321477", "307552876051" },
{ 6, 19, "5", "7" },
{ 6, 43, "17", "13" },
{ 6, 43, "4592547906355601", "4592547974123941" },
{ 6, 59, "17", "21" },
{ 6, 67, "8122501", "8119651" },
{ 6, 99, "37", "31" },
{ 6, 99, "307552321477", "307552876051" },
{ 6, 123, "37", "43" },
{ 6, 163, "4357", "4423" },
{ 6, 187, "577", "553" },
{ 6, 267, "5231628901", "5231701231" },
{ 6, 283, "101", "91" },
{ 6, 283, "4744204096226984496522670337", "4744204096227053374705690993" },
{ 6, 323, "101", "111" },
{ 6, 379, "34240540283664017", "34240540098622021" },
{ 6, 443, "17957", "17823" },
{ 6, 443, "5489266374527516068914747792901", "5489266374527513725996402112131" },
{ 6, 563, "197", "183" },
{ 6, 603, "8122501", "8119651" },
{ 6, 619, "197", "211" },
{ 6, 723, "4137157", "4135123" },
{ 6, 739, "257", "241" },
{ 6, 803, "257", "273" },
{ 6, 947, "12076088289594082667150216839518097", "12076088289594082777041473496242533" },
{ 6, 1003, "3418932119321224598064399818982707994923125800013155050625048795004544321523300091110401", "3418932119321224598064399818982707994923125858484790219493249329741863255246041610581921" },
{ 6, 1163, "401", "381" },
{ 6, 1243, "401", "421" },
{ 6, 1467, "4357", "4423" },
{ 6, 1627, "3476467317754311905477", "3476467317813273480403" },
{ 6, 1683, "577", "553" },
{ 6, 1723, "1163075971601", "1163077050061" },
{ 6, 1779, "577", "601" },
{ 6, 1803, "72901", "72631" },
{ 6, 1979, "677", "651" },
{ 6, 2083, "677", "703" },
{ 6, 2147, "1322501", "1323651" },
{ 6, 2251, "217157", "216691" },
{ 6, 2371, "7057", "7141" },
{ 6, 2787, "32490001", "32484301" },
{ 6, 3043, "122501", "122851" },
{ 6, 3083, "10074277", "10071103" },
{ 6, 3139, "2522302024251565941471858530725499557", "2522302024251565939883682840113290891" },
{ 6, 3443, "414737", "414093" },
{ 6, 3819, "1297", "1261" },
{ 6, 3867, "9729088237592047671877", "9729088237690683812503" },
{ 6, 3883, "495952901", "495930631" },
{ 6, 3963, "1297", "1333" },
{ 6, 3971, "307552321477", "307552876051" },
{ 6, 3987, "5489266374527516068914747792901", "5489266374527513725996402112131" },
{ 6, 4267, "15601244036403601", "15601243911498661" },
{ 6, 4723, "1601", "1561" },
{ 6, 4827, "14401", "14521" },
{ 6, 4883, "1601", "1641" },
{ 6, 4947, "476101", "476791" },
{ 6, 5427, "8122501", "8119651" },
{ 6, 5483, "487021448223408401", "487021448921277621" },
{ 6, 5763, "2805706351001593463077", "2805706351054562381803" },
{ 6, 6523, "176401", "175981" },
{ 6, 6571, "9834497", "9831361" },
{ 6, 7467, "22501", "22351" },
{ 10, 43, "283", "251" },
{ 10, 283, "8443", "8261" },
{ 10, 1603, "277603", "276551" },
{ 10, 4003, "1747363", "1744721" },
{ 10, 5803, "3809803", "3805901" },
{ 10, 7483, "6134923", "6129971" },
{ 10, 18883, "853410022161872632541041555194491281831363", "853410022161872632539193951316857471892471" },
{ 10, 28267, "460888470873574847933669252683", "460888470873573490158325724051" },
{ 10, 29707, "6087564484968417937483", "6087564484812372245651" },
{ 10, 35707, "2926412733580100992307561873039833220827733137936969076285307797490604260428897294595498283", "2926412733580100992307561873039833220827733134515616867827312169666529695426765736872221251" },
};
