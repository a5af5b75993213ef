package cache
import time "time"

// ---- a shard is a ring of items; distance 0 is the entry written last, distance 1023 the oldest slot

spec func dist(cur int, p int) int = ite(p < cur, cur - 1 - p, cur + 1023 - p)
spec func hash(k string) int = ufi("xxhash", k)
spec func shardOf(c *SpearCache, k string) *shard = c.shards[hash(k) % 256]
spec func newest(s *shard, h int, p int) bool = 0 <= p && p < 1024 && s.items[p].key == h && forall q int {s.items[q]} :: 0 <= q && q < 1024 && dist(s.cursor, q) < dist(s.cursor, p) ==> s.items[q].key != h
spec func absent(s *shard, h int) bool = forall q int {s.items[q]} :: 0 <= q && q < 1024 ==> s.items[q].key != h

guard shard.lock
  fields items cursor
  invariant [C10] the write position is in the ring: 0 <= self.cursor && self.cursor <= 1024

spec func entry(s *shard, h int, p int, v any) bool = newest(s, h, p) && s.items[p].value == v
spec func between(t int, old int, lo int, hi int) bool = t == old || lo <= t && t <= hi
spec func last(s *shard) int = s.cursor - 1

// key: the key asked for; p: the position of its newest entry, if it has one.
// g: any other key; e: the position of its newest entry, if it has one.

contract cache.Get
  func cache.(*SpearCache).Get(c, key, maxAge) results (ok, v)
  tags C10 C11
  safety C27
  requires forall i int {c.shards[i]} :: 0 <= i && i < 256 ==> c.shards[i] != nil
  given p int
  given g string
  given e int
  let S = shardOf(c, key)
  let H = hash(key)
  let G = hash(g)
  let NOW = first(clock, n)
  let OLD = locked(S.items[p].modTime)
  let V = locked(S.items[p].value)
  let GV = locked(S.items[e].value)
  let GT = locked(S.items[e].modTime)
  let NEW = locked(newest(S, H, p)) && OLD <= NOW
  ensures [C10] the newest entry is returned while it is fresh: NEW && arg(clock, n) - OLD <= maxAge ==> ok && v == V
  ensures [C10] an expired key is reported absent: NEW && NOW - OLD > maxAge ==> !ok
  ensures [C10] what is returned is the value of the newest entry: NEW && ok ==> v == V
  ensures [C10] a key that is not stored is reported absent: locked(absent(S, H)) ==> !ok
  ensures [C10] a key that is not stored stays absent: locked(absent(S, H)) ==> unlocked(absent(S, H))
  ensures [C10] the key keeps its value: locked(newest(S, H, p)) && (ok || locked(dist(S.cursor, p)) < 1023) ==> unlocked(entry(S, H, p, V) || entry(S, H, last(S), V))
  ensures [C10] a lookup that fails leaves the age alone: locked(newest(S, H, p)) && !ok && locked(dist(S.cursor, p)) < 1023 ==> unlocked(newest(S, H, p) && S.items[p].modTime == OLD)
  ensures [C10] a lookup that succeeds may only renew the age: locked(newest(S, H, p)) && ok ==> unlocked(newest(S, H, p) && between(S.items[p].modTime, OLD, NOW, arg(clock, n)) || newest(S, H, last(S)) && between(S.items[last(S)].modTime, OLD, NOW, arg(clock, n)))
  // what the operation leaves behind for every other key
  ensures [C10] another key keeps its newest entry unless it was the oldest slot: G != H && locked(newest(S, G, e) && dist(S.cursor, e) < 1023) ==> unlocked(newest(S, G, e) && S.items[e].value == GV && S.items[e].modTime == GT)
  ensures [C10] no other key appears: G != H && G != 0 && locked(absent(S, G)) ==> unlocked(absent(S, G))
  candidate $i int :: forall q int {S.items[q]} :: 0 <= q && q < 1024 && dist(S.cursor, q) < $i - 1 ==> S.items[q].key != H
  candidate $i int :: forall q int {S.items[q]} :: 0 <= q && q < 1024 && dist(S.cursor, q) < $i ==> S.items[q].key != H
  candidate $i int :: forall q int {S.items[q]} :: 0 <= q && q < 1024 && dist(S.cursor, q) <= $i ==> S.items[q].key != H
  cover ok
  cover !ok

contract cache.Find
  func cache.(*SpearCache).Find(c, key) results (ok, v, age)
  tags C10 C11
  safety C27
  requires forall i int {c.shards[i]} :: 0 <= i && i < 256 ==> c.shards[i] != nil
  given p int
  given g string
  given e int
  let S = shardOf(c, key)
  let H = hash(key)
  let G = hash(g)
  let NOW = first(clock, n)
  let OLD = locked(S.items[p].modTime)
  let V = locked(S.items[p].value)
  let GV = locked(S.items[e].value)
  let GT = locked(S.items[e].modTime)
  let NEW = locked(newest(S, H, p)) && OLD <= NOW
  ensures [C10] the newest entry is found: locked(newest(S, H, p)) ==> ok && v == V
  ensures [C10] the age is the true age of the entry: NEW ==> NOW - OLD <= age && age <= arg(clock, n) - OLD
  ensures [C10] a key that is not stored is reported absent: locked(absent(S, H)) ==> !ok
  ensures [C10] a key that is not stored stays absent: locked(absent(S, H)) ==> unlocked(absent(S, H))
  ensures [C10] the key keeps its value: locked(newest(S, H, p)) && (ok || locked(dist(S.cursor, p)) < 1023) ==> unlocked(entry(S, H, p, V) || entry(S, H, last(S), V))
  ensures [C10] a lookup that fails leaves the age alone: locked(newest(S, H, p)) && !ok && locked(dist(S.cursor, p)) < 1023 ==> unlocked(newest(S, H, p) && S.items[p].modTime == OLD)
  ensures [C10] a lookup that succeeds may only renew the age: locked(newest(S, H, p)) && ok ==> unlocked(newest(S, H, p) && between(S.items[p].modTime, OLD, NOW, arg(clock, n)) || newest(S, H, last(S)) && between(S.items[last(S)].modTime, OLD, NOW, arg(clock, n)))
  // what the operation leaves behind for every other key
  ensures [C10] another key keeps its newest entry unless it was the oldest slot: G != H && locked(newest(S, G, e) && dist(S.cursor, e) < 1023) ==> unlocked(newest(S, G, e) && S.items[e].value == GV && S.items[e].modTime == GT)
  ensures [C10] no other key appears: G != H && G != 0 && locked(absent(S, G)) ==> unlocked(absent(S, G))
  candidate $i int :: forall q int {S.items[q]} :: 0 <= q && q < 1024 && dist(S.cursor, q) < $i - 1 ==> S.items[q].key != H
  candidate $i int :: forall q int {S.items[q]} :: 0 <= q && q < 1024 && dist(S.cursor, q) < $i ==> S.items[q].key != H
  candidate $i int :: forall q int {S.items[q]} :: 0 <= q && q < 1024 && dist(S.cursor, q) <= $i ==> S.items[q].key != H
  cover ok
  cover !ok

contract cache.Set
  func cache.(*SpearCache).Set(c, key, value) results ()
  tags C10 C11
  safety C27
  requires forall i int {c.shards[i]} :: 0 <= i && i < 256 ==> c.shards[i] != nil
  given p int
  given g string
  given e int
  let S = shardOf(c, key)
  let H = hash(key)
  let G = hash(g)
  let NOW = first(clock, n)
  let OLD = locked(S.items[p].modTime)
  let V = locked(S.items[p].value)
  let GV = locked(S.items[e].value)
  let GT = locked(S.items[e].modTime)
  ensures [C10] the stored value is the newest entry of the key: unlocked(entry(S, H, last(S), value) && between(S.items[last(S)].modTime, NOW, NOW, arg(clock, n)) || (exists q int {S.items[q]} :: entry(S, H, q, value) && between(S.items[q].modTime, NOW, NOW, arg(clock, n))))
  // what the operation leaves behind for every other key
  ensures [C10] another key keeps its newest entry unless it was the oldest slot: G != H && locked(newest(S, G, e) && dist(S.cursor, e) < 1023) ==> unlocked(newest(S, G, e) && S.items[e].value == GV && S.items[e].modTime == GT)
  ensures [C10] no other key appears: G != H && G != 0 && locked(absent(S, G)) ==> unlocked(absent(S, G))
  candidate $i int :: forall q int {S.items[q]} :: 0 <= q && q < 1024 && dist(S.cursor, q) < $i - 1 ==> S.items[q].key != H
  candidate $i int :: forall q int {S.items[q]} :: 0 <= q && q < 1024 && dist(S.cursor, q) < $i ==> S.items[q].key != H
  candidate $i int :: forall q int {S.items[q]} :: 0 <= q && q < 1024 && dist(S.cursor, q) <= $i ==> S.items[q].key != H

contract cache.NewCache
  func cache.NewCache() results (c)
  tags C10
  modular
  safety C27
  ensures [C10 C27] every shard exists: c != nil && fresh(c) && forall i int {c.shards[i]} :: 0 <= i && i < 256 ==> c.shards[i] != nil
  ensures [C10] distinct keys of different shards never share an entry: forall i int, j int {c.shards[i], c.shards[j]} :: 0 <= i && i < j && j < 256 ==> c.shards[i] != c.shards[j]
  ensures [C10] a new cache is empty: forall i int, q int {c.shards[i].items[q]} :: 0 <= i && i < 256 && 0 <= q && q < 1024 ==> c.shards[i].items[q].key == 0
  candidate $c *SpearCache, $i int :: forall j int {$c.shards[j]} :: 0 <= j && j < $i ==> fresh($c.shards[j]) && allocated($c.shards[j]) && $c.shards[j] != nil
  candidate $c *SpearCache, $i int :: forall j int, k int {$c.shards[j], $c.shards[k]} :: 0 <= j && j < k && k < $i ==> $c.shards[j] != $c.shards[k]
  candidate $c *SpearCache, $i int :: forall j int, q int {$c.shards[j].items[q]} :: 0 <= j && j < $i && 0 <= q && q < 1024 ==> $c.shards[j].items[q].key == 0
  candidate $c *SpearCache, $i int :: forall j int {$c.shards[j]} :: 0 <= j && j <= $i ==> fresh($c.shards[j]) && allocated($c.shards[j]) && $c.shards[j] != nil
  candidate $c *SpearCache, $i int :: forall j int, k int {$c.shards[j], $c.shards[k]} :: 0 <= j && j < k && k <= $i ==> $c.shards[j] != $c.shards[k]
  candidate $c *SpearCache, $i int :: forall j int, q int {$c.shards[j].items[q]} :: 0 <= j && j <= $i && 0 <= q && q < 1024 ==> $c.shards[j].items[q].key == 0

// ---- what the other packages rely on

event cacheget(c *SpearCache, key string, maxAge int, ok bool, v any)
event cacheset(c *SpearCache, key string, v any)

contract cache.Get.call
  func cache.(*SpearCache).Get(c, key, maxAge) results (ok, v)
  tags C10
  modular
  requires c != nil && forall i int {c.shards[i]} :: 0 <= i && i < 256 ==> c.shards[i] != nil
  ensures [C10] a failed lookup gives no value: !ok ==> v == nil
  calls cacheget(c, key, maxAge, ok, v)

contract cache.Set.call
  func cache.(*SpearCache).Set(c, key, value) results ()
  tags C10
  modular
  requires c != nil && forall i int {c.shards[i]} :: 0 <= i && i < 256 ==> c.shards[i] != nil
  calls cacheset(c, key, value)
