// The atmosphere database: which conditions it lists, where, and which records
// surround a condition in between.  Lengths are whole millimetres, so that every
// number fits a machine integer (TLC).
module catalogue {
  // record altitudes and the number of ground ranges above the horizon at each
  pure val ALT = [2000, 32500, 75000, 150000, 225000, 500000, 1000000, 2000000, 3000000, 4000000, 5000000, 6000000, 7000000,
    8000000, 9000000, 10000000, 11000000, 12000000, 14000000, 16000000, 18000000, 20000000, 24500000, 550000000]
  pure val COUNT = [8, 23, 28, 34, 39, 52, 59, 68, 76, 82, 87, 92, 96, 97, 97, 97, 97, 97, 97, 97, 97, 97, 97, 1]
  // 0, 100 m, 500 m, then every km to 20, every 2 km to 80, every 5 km to 300
  pure def RANGE(i: int): int =
    if (i == 0) 0 else if (i == 1) 100000 else if (i == 2) 500000
    else if (i <= 22) (i - 2) * 1000000
    else if (i <= 52) 20000000 + (i - 22) * 2000000
    else 80000000 + (i - 52) * 5000000
  pure val RANGES = 97
  // the grid the interpolating lookup uses: 2 m to 20 km
  pure val GRID = 22

  pure def countTo(a: int): int = 0.to(23).fold(0, (s, j) => if (j < a) s + COUNT[j] else s)
  // files are numbered: all of haze 1, then all of haze 2, except that the 24.5 km and
  // 550 km altitudes were appended at the end
  pure def record(haze: int, a: int, g: int): int =
    if ((haze != 1 and haze != 2) or a < 0 or a > 23 or g < 0 or g >= COUNT[a]) 0
    else if (a < 22) (haze - 1) * countTo(22) + countTo(a) + g + 1
    else if (a == 22) 2 * countTo(22) + (haze - 1) * 97 + g + 1
    else 2 * countTo(22) + 2 * 97 + haze

  // positions of exact grid values (-1: none)
  pure def altAt(mm: int): int = 0.to(23).fold(-1, (b, j) => if (ALT[j] == mm) j else b)
  pure def rangeAt(mm: int): int =
    if (mm == 0) 0 else if (mm == 100000) 1 else if (mm == 500000) 2
    else if (mm >= 1000000 and mm <= 20000000 and mm % 1000000 == 0) mm / 1000000 + 2
    else if (mm > 20000000 and mm <= 80000000 and mm % 2000000 == 0) (mm - 20000000) / 2000000 + 22
    else if (mm > 80000000 and mm <= 300000000 and mm % 5000000 == 0) (mm - 80000000) / 5000000 + 52
    else -1
  pure def lookup(haze: int, alt: int, ground: int): int = {
    val a = altAt(alt)
    val g = rangeAt(ground)
    if (a < 0 or g < 0) 0 else record(haze, a, g)
  }
  // largest grid position not above / smallest not below, for values within the limits
  pure def altBelow(mm: int): int = 0.to(GRID - 1).fold(0, (b, j) => if (ALT[j] <= mm) (if (j > b) j else b) else b)
  pure def altAbove(mm: int): int = 0.to(GRID - 1).fold(GRID - 1, (b, j) => if (ALT[j] >= mm) (if (j < b) j else b) else b)
  pure def rangeBelow(mm: int): int = 0.to(RANGES - 1).fold(0, (b, j) => if (RANGE(j) <= mm) (if (j > b) j else b) else b)
  pure def rangeAbove(mm: int): int = 0.to(RANGES - 1).fold(RANGES - 1, (b, j) => if (RANGE(j) >= mm) (if (j < b) j else b) else b)
  pure def within(alt: int, ground: int): bool =
    alt >= ALT[0] and alt <= ALT[GRID - 1] and ground >= 0 and ground <= RANGE(RANGES - 1)

  // The four records around a condition, [low alt low range, high alt low range, low alt
  // high range, high alt high range], 0 where the database has none.  On a grid value
  // low and high coincide.  [] outside the limits.
  pure def around(haze: int, alt: int, ground: int): List[int] =
    if (not(within(alt, ground))) []
    else {
      val a0 = altBelow(alt)
      val a1 = altAbove(alt)
      val g0 = rangeBelow(ground)
      val g1 = rangeAbove(ground)
      [record(haze, a0, g0), record(haze, a1, g0), record(haze, a0, g1), record(haze, a1, g1)]
    }
  // what a lookup needs: the records and whether it can succeed
  pure def needs(interp: bool, haze: int, alt: int, ground: int): List[int] =
    if (interp) around(haze, alt, ground) else [lookup(haze, alt, ground)]
  pure def succeeds(recs: List[int]): bool = recs.length() > 0 and 0.to(3).forall(j => j < recs.length() implies recs[j] != 0)

  run catalogueTest = all {
    assert(lookup(1, 2000, 0) == 1), assert(lookup(1, 2000, 5000000) == 8), assert(lookup(1, 2000, 6000000) == 0),
    assert(lookup(2, 2000, 0) == 1618), assert(lookup(1, 20000000, 300000000) == 1617), assert(lookup(2, 20000000, 0) == 3138),
    assert(lookup(1, 24500000, 0) == 3235), assert(lookup(2, 24500000, 300000000) == 3428), assert(lookup(2, 550000000, 0) == 3430),
    assert(lookup(3, 2000, 0) == 0), assert(around(1, 50000, 0) == [9, 32, 9, 32]),
    assert(around(1, 2000, 5500000) == [8, 8, 0, 0]), assert(around(1, 1999, 0) == []) }
}
