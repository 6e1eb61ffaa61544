CONSTANTS
  Conns = {"c1", "c2", "c3"}
  Ids = {1, 2, 3}
  Vals = {1, 2, 3, 4, 5}
  MaxHolds = 4
  Validate = TRUE
  MaxBurst = 3
  Kinds = {"get", "dot", "put", "post", "hold", "sub", "unsub", "notjson", "notdict", "noid", "badtype", "nopath", "emptypath", "get.bad", "put.ro", "put.short", "put.val", "post.bad", "post.param", "post.fail"}
  Addrs = {"10.1.99.7", "10.2.2.3", "192.168.5.129", "192.168.5.127", "192.168.5.192", "127.3.4.5", "172.16.0.5", "11.1.2.3", "::1", "fe80::1"}
  Hist = TRUE
INIT Init
NEXT Next
INVARIANTS SimEmit
CHECK_DEADLOCK FALSE
