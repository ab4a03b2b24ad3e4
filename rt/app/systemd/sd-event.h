// The part of the sd-event interface that bnl/http3/app/endpoint uses.
#pragma once
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <sys/epoll.h>
#include <sys/signalfd.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct sd_event sd_event;
typedef struct sd_event_source sd_event_source;
enum { SD_EVENT_OFF = 0, SD_EVENT_ON = 1, SD_EVENT_ONESHOT = -1 };
typedef int (*sd_event_io_handler_t)(sd_event_source *s, int fd, uint32_t revents, void *userdata);
typedef int (*sd_event_time_handler_t)(sd_event_source *s, uint64_t usec, void *userdata);
typedef int (*sd_event_signal_handler_t)(sd_event_source *s, const struct signalfd_siginfo *si, void *userdata);
int sd_event_default(sd_event **e);
int sd_event_new(sd_event **e);
sd_event *sd_event_ref(sd_event *e);
sd_event *sd_event_unref(sd_event *e);
int sd_event_now(sd_event *e, clockid_t clock, uint64_t *usec);
int sd_event_add_io(sd_event *e, sd_event_source **s, int fd, uint32_t events, sd_event_io_handler_t callback, void *userdata);
int sd_event_add_time(sd_event *e, sd_event_source **s, clockid_t clock, uint64_t usec, uint64_t accuracy, sd_event_time_handler_t callback, void *userdata);
int sd_event_add_signal(sd_event *e, sd_event_source **s, int sig, sd_event_signal_handler_t callback, void *userdata);
int sd_event_loop(sd_event *e);
int sd_event_exit(sd_event *e, int code);
sd_event_source *sd_event_source_ref(sd_event_source *s);
sd_event_source *sd_event_source_unref(sd_event_source *s);
sd_event *sd_event_source_get_event(sd_event_source *s);
void *sd_event_source_get_userdata(sd_event_source *s);
void *sd_event_source_set_userdata(sd_event_source *s, void *userdata);
int sd_event_source_set_enabled(sd_event_source *s, int enabled);
int sd_event_source_set_time(sd_event_source *s, uint64_t usec);
int sd_event_source_set_exit_on_failure(sd_event_source *s, int b);
int sd_event_source_set_description(sd_event_source *s, const char *description);
int sd_event_source_set_priority(sd_event_source *s, int64_t priority);
#ifdef __cplusplus
}
#endif
