#ifndef KAI_MATH_H
#define KAI_MATH_H
double log2(double); double ceil(double); double floor(double); double pow(double, double);
#endif
