// Runs nisaba/translit/tools/calculate_error_rate on one pair of files.
#include <string>

#include "nisaba/translit/tools/calculate_error_rate.h"

int main(int argc, char **argv) {
  const bool split = argv[4][0] == '1', pairwise = argv[5][0] == '1';
  nisaba::translit::tools::MultiRefErrorRate rates(split);
  rates.CalculateErrorRate(argv[1], argv[2], pairwise);
  rates.Write(argv[3], pairwise);
  printf("%.17g\n", pairwise ? 0. : rates.CalcErrorRate());
  return 0;
}
