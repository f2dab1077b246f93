// Executions recorded from the package; a check writes its own copy beside a copy of the specification.
module recorded {
  pure val RECORDS: List[str -> List[int]] = [
    Map("u" -> [10^60, 10^60 / 2, 0], "v" -> [10^60, 10^60 / 3, 0], "df" -> [10^63], "ifov_x" -> [10^57], "ifov_y" -> [10^57],
        "gsd" -> [10^60], "ng" -> [10^60], "snr" -> [50 * 10^60], "stacks" -> [2 * 10^60], "elev" -> [10^60], "slant" -> [10^63], "altitude" -> [10^62],
        "rer" -> [10^59 * 8], "rer0" -> [10^59 * 8], "rer90" -> [10^59 * 8], "eho" -> [10^60])
  ]
}
