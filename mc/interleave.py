"""A controlled scheduler for threads, that run the real code: exactly one thread runs at a time and the scheduler decides,
before which line of the code under test it is preempted."""

import os
import sys
import threading

from mc import core

BLOCKED = 2.0       # seconds without progress, after which a thread is considered to be waiting for a lock, that a preempted thread holds


class Task(threading.Thread):
    """Runs a function and stops before a given line of the code under test."""

    def __init__(self, function, prefix, record=False):
        super().__init__(daemon=True)
        self.__function = function
        self.__prefix = prefix
        self.__resume = threading.Semaphore(0)
        self.__reports = threading.Semaphore(0)
        self.__limit = None
        self.__recorded = [] if record else None
        self.lines = 0
        self.where = None
        self.result = None
        self.finished = False

    def run(self):
        self.__resume.acquire()
        sys.settrace(self.__call)
        try:
            self.result = self.__function()
        except BaseException as e:      # pylint: disable=broad-except
            self.result = e
        finally:
            sys.settrace(None)
            self.finished = True
            self.__reports.release()

    def __call(self, frame, event, argument):
        return self.__line if frame.f_code.co_filename.startswith(self.__prefix) else None

    def __line(self, frame, event, argument):
        if event == "line":
            if self.__limit is not None and self.lines >= self.__limit:
                self.where = f"{os.path.relpath(frame.f_code.co_filename, self.__prefix)}:{frame.f_lineno}"
                self.__reports.release()
                self.__resume.acquire()
            self.lines += 1
            if self.__recorded is not None:
                self.__recorded.append((frame.f_code, frame.f_lineno))
        return self.__line

    def recorded(self):
        return self.__recorded

    def proceed(self, lines=None):
        """Runs the given number of lines (or to the end). Returns False, if the thread is blocked."""
        if self.finished:
            return True
        if not self.is_alive():
            self.start()
        self.__limit = None if lines is None else self.lines + lines
        self.__resume.release()
        return self.__reports.acquire(timeout=BLOCKED)

    def complete(self):
        """Runs to the end, if the thread has been preempted or blocked"""
        if not self.finished:
            if self.ident is None:
                self.start()
            self.__limit = None
            self.__resume.release()
        self.join(20.0)
        if self.is_alive():
            raise core.Mismatch("the threads are deadlocked")


def prefix():
    return os.path.join(core.REPO, "sumpf") + os.sep


def lines_of(function):
    """Runs a function alone and returns its result and the lines, that it executes"""
    task = Task(function, prefix(), record=True)
    task.complete()
    return task.result, task.recorded()


def interleave(first, second, schedule):
    """Runs two functions in two threads.

    :param schedule: a sequence of tuples (index of the function, number of lines to run); afterwards both run to their ends
    :returns: the results (or the raised exceptions)
    """
    tasks = [Task(f, prefix()) for f in (first, second)]
    for index, lines in schedule:
        tasks[index].proceed(lines)
    where = [t.where for t in tasks]
    for task in tasks if not schedule or schedule[-1][0] == 1 else reversed(tasks):
        if schedule and not task.finished:
            task.proceed(None)      # does not return before the thread has finished or is blocked by the other one
    for task in tasks:
        task.complete()
    return [t.result for t in tasks], where
