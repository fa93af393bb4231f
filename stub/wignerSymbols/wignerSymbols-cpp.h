// Stand-in for the external wignerSymbols library (absent here): exact Racah sums.
#pragma once
namespace WignerSymbols {
double wigner3j(double l1, double l2, double l3, double m1, double m2, double m3);
double wigner6j(double l1, double l2, double l3, double l4, double l5, double l6);
} // namespace WignerSymbols
