#ifndef KAI_TIME_H
#define KAI_TIME_H
typedef long time_t;
time_t time(time_t *);
#endif
