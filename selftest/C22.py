F = "tcmalloc/internal/util.cc"
H = "tcmalloc/internal/util.h"
M = [
 ("close-noretry", "bad", F, "rc = close(fd);\n  } while (rc == -1 && errno == EINTR);", "rc = close(fd);\n  } while (false);"),
 ("open-retryany", "bad", F, "while (fd == -1 && errno == EINTR);", "while (fd == -1 && errno != EINTR);"),
 ("open-mode", "bad", F, "(flags & O_CREAT) ? open(path, flags, mode) : open(path, flags)", "(flags & O_CREAT) ? open(path, flags, 0) : open(path, flags)"),
 ("open-creat", "bad", F, "(flags & O_CREAT) ?", "(flags & O_EXCL) ?"),
 ("write-nooff", "bad", F, "write(fd, buf + total_bytes, count - total_bytes)", "write(fd, buf, count - total_bytes)"),
 ("write-nolen", "bad", F, "write(fd, buf + total_bytes, count - total_bytes)", "write(fd, buf + total_bytes, count)"),
 ("write-notloop", "bad", F, "(rc > 0 && count > total_bytes) || (rc == -1 && errno == EINTR)", "(rc == -1 && errno == EINTR)"),
 ("write-noeintr", "bad", F, "(rc > 0 && count > total_bytes) || (rc == -1 && errno == EINTR)", "(rc > 0 && count > total_bytes)"),
 ("write-eintr-reset", "bad", F, "    if (rc > 0) total_bytes += rc;\n  } while ((rc > 0 &&", "    total_bytes += rc;\n  } while ((rc > 0 &&"),
 ("write-bytes", "bad", F, "if (bytes_written != nullptr) *bytes_written = total_bytes;", "if (bytes_written != nullptr) *bytes_written = rc;"),
 ("write-bytes-cond", "bad", F, "if (bytes_written != nullptr) *bytes_written", "if (rc > 0) *bytes_written"),
 ("read-last", "bad", F, "rc = total_bytes;  // return", "rc = rc;  // return"),
 ("read-eintr", "bad", F, "(rc > 0 || errno == EINTR) &&", "(rc > 0) &&"),
 ("read-tot0", "bad", F, " == 1 ||\n            total_bytes == 0));", " == 1));"),
 ("read-over", "bad", F, "while (total_bytes < count &&", "while (total_bytes <= count &&"),
 ("read-len", "bad", F, "read(fd, buf + total_bytes, count - total_bytes)", "read(fd, buf + total_bytes, count)"),
 ("read-anyerr", "bad", F, "(rc > 0 || errno == EINTR) &&", "(rc > 0 || errno == EAGAIN || errno == EINTR) &&"),
 ("read-err-as-data", "bad", F, "if (rc != -1 || errno == EINTR)", "if (rc != -1 || errno != EINTR)"),
 ("poll-noeintr", "bad", F, "while ((rc = poll(fds, nfds, 0)) == -1 && errno == EINTR) {\n    }", "rc = poll(fds, nfds, 0);"),
 ("copy-batch", "bad", F, "std::min<size_t>(src_chunks.size(), kMaxIov)", "std::min<size_t>(src_chunks.size(), kMaxIov + 1)"),
 ("copy-nooff", "bad", F, "static_cast<char*>(dst) + dst_offset", "static_cast<char*>(dst)"),
 ("copy-short", "bad", F, "if (bytes != batch_bytes)", "if (bytes < 0)"),
 ("copy-off", "bad", F, "dst_offset += batch_bytes;", "dst_offset = batch_bytes;"),
 ("copy-prefix", "bad", F, "src_chunks.remove_prefix(batch_count);", "src_chunks.remove_prefix(kMaxIov);"),
 ("copy-nulldst", "bad", F, "src_chunks.empty() || dst == nullptr", "src_chunks.empty()"),
 ("mask-block", "bad", H, "Setmask(SIG_SETMASK, &old_set_, nullptr);", "Setmask(SIG_BLOCK, &old_set_, nullptr);"),
 ("mask-unblock", "bad", H, "Setmask(SIG_SETMASK, &set, &old_set_);", "Setmask(SIG_UNBLOCK, &set, &old_set_);"),
 ("mask-empty", "bad", H, "sigfillset(&set);", "sigemptyset(&set);"),
 ("errno", "bad", H, "~ErrnoRestorer() { errno = saved_errno_; }", "~ErrnoRestorer() { if (errno == 0) errno = saved_errno_; }"),
 ("errno2", "bad", H, "~ErrnoRestorer() { errno = saved_errno_; }", "~ErrnoRestorer() { saved_errno_ = errno; }"),
 ("ok-close", "ok", F, "  int rc;\n\n  do {\n    rc = close(fd);\n  } while (rc == -1 && errno == EINTR);\n\n  return rc;", "  for (;;) {\n    const int rc = close(fd);\n    if (rc != -1 || errno != EINTR) return rc;\n  }"),
 ("ok-close2", "ok", F, "  int rc;\n\n  do {\n    rc = close(fd);\n  } while (rc == -1 && errno == EINTR);\n\n  return rc;", "  return TCMALLOC_RETRY_ON_TEMP_FAILURE(close(fd));"),
 ("ok-open", "ok", F, "  do {\n    fd = ((flags & O_CREAT) ? open(path, flags, mode) : open(path, flags));\n  } while (fd == -1 && errno == EINTR);\n", "  while (true) {\n    if (flags & O_CREAT) { fd = open(path, flags, mode); } else { fd = open(path, flags); }\n    if (fd >= 0) break;\n    if (errno != EINTR) break;\n  }\n"),
 ("ok-write-rem", "ok", F, "  ssize_t rc;\n  size_t total_bytes = 0;\n\n  do {\n    rc = write(fd, buf + total_bytes, count - total_bytes);\n    if (rc > 0) total_bytes += rc;\n  } while ((rc > 0 && count > total_bytes) || (rc == -1 && errno == EINTR));", "  ssize_t rc;\n  size_t total_bytes = 0;\n  size_t left = count; const char* p = buf;\n  for (;;) {\n    rc = write(fd, p, left);\n    if (rc > 0) { total_bytes += rc; p += rc; left -= rc; if (left == 0) break; continue; }\n    if (rc == -1 && errno == EINTR) continue;\n    break;\n  }"),
 ("ok-write-brk", "ok", F, "  do {\n    rc = write(fd, buf + total_bytes, count - total_bytes);\n    if (rc > 0) total_bytes += rc;\n  } while ((rc > 0 && count > total_bytes) || (rc == -1 && errno == EINTR));", "  while (true) {\n    rc = write(fd, buf + total_bytes, count - total_bytes);\n    if (rc < 0) { if (errno == EINTR) continue; break; }\n    if (rc == 0) break;\n    total_bytes += static_cast<size_t>(rc);\n    if (total_bytes >= count) break;\n  }"),
 ("ok-read-brk", "ok", F, "  do {\n    rc = read(fd, buf + total_bytes, count - total_bytes);\n    if (rc > 0) total_bytes += rc;\n\n    if (rc == 0) break;  // EOF\n    // try again if there's space to fill, no (non-interrupt) error,\n    // and data is available.\n  } while (total_bytes < count && (rc > 0 || errno == EINTR) &&\n           (signal_safe_poll(&pfd, 1, absl::ZeroDuration()) == 1 ||\n            total_bytes == 0));", "  for (;;) {\n    rc = read(fd, buf + total_bytes, count - total_bytes);\n    if (rc == 0) break;\n    if (rc > 0) total_bytes += rc;\n    else if (errno != EINTR) break;\n    if (total_bytes >= count) break;\n    const bool ready = signal_safe_poll(&pfd, 1, absl::ZeroDuration()) == 1;\n    if (!ready && total_bytes != 0) break;\n  }"),
 ("ok-copy-helper", "ok", F, "    if (bytes != batch_bytes) {\n      return false;\n    }\n\n    dst_offset += batch_bytes;\n", "    if (bytes < 0 || static_cast<size_t>(bytes) != batch_bytes) {\n      return false;\n    }\n    dst_offset += bytes;\n"),
 ("ok-copy-ptr", "ok", F, "    dst_iov.iov_base = static_cast<char*>(dst) + dst_offset;\n    dst_iov.iov_len = batch_bytes;", "    char* const to = static_cast<char*>(dst) + dst_offset;\n    dst_iov.iov_len = batch_bytes;\n    dst_iov.iov_base = to;"),
 ("ok-errno", "ok", H, "~ErrnoRestorer() { errno = saved_errno_; }", "~ErrnoRestorer() { const int e = saved_errno_; errno = e; }"),
]
