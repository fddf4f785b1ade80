"""Decides, line by line, which worker thread runs next inside one source file of the code under test.

Threads started while the gate is installed stop before every line they execute in that file until the
schedule lets them go on.  The main thread is never held, so an early return is seen as such."""

import threading
import time


class Gate:
	def __init__(self, suffix):
		self.suffix = suffix
		self.cv = threading.Condition()
		self.reset()
		self.open = True

	def reset(self):
		self.order, self.waiting, self.depth = [], set(), {}
		self.granted, self.open, self.stop = None, False, False

	# -- worker side
	def tracer(self, frame, event, arg):
		if not frame.f_code.co_filename.endswith(self.suffix):
			return None
		me = threading.get_ident()
		self.depth[me] = self.depth.get(me, 0) + 1
		self.pause(me)
		return self.local

	def local(self, frame, event, arg):
		me = threading.get_ident()
		if event == "line":
			self.pause(me)
		elif event == "return":
			with self.cv:
				self.depth[me] = self.depth.get(me, 1) - 1
				self.cv.notify_all()
		return self.local

	def pause(self, me):
		with self.cv:
			if self.open:
				return
			if me not in self.order:
				self.order.append(me)
			self.waiting.add(me)
			self.cv.notify_all()
			while not self.open and self.granted != me:
				self.cv.wait(1.0)
			self.granted = None
			self.waiting.discard(me)
			self.cv.notify_all()

	# -- scheduler side
	def run(self, schedule, threads):
		end = time.time() + 0.25
		with self.cv:
			while len(self.order) < threads and time.time() < end and not self.stop:
				self.cv.wait(0.02)
		k = 0
		while not self.stop:
			with self.cv:
				if not self.waiting:
					self.cv.wait(0.005)
					continue
				live = [t for t in self.order if t in self.waiting]
				if schedule == "seq":
					t = live[0]
				elif schedule == "rev":
					t = live[-1]
				else:
					want = schedule[k % len(schedule)] - 1
					t = self.order[want] if want < len(self.order) and self.order[want] in self.waiting else live[want % len(live)]
				k += 1
				self.granted = t
				self.cv.notify_all()
				end = time.time() + 2.0
				while not self.stop and time.time() < end:  # until it stops again, or has left the file
					if self.granted is None and (t in self.waiting or self.depth.get(t, 0) <= 0):
						break
					self.cv.wait(0.05)
				else:
					if not self.stop:
						self.release()
						return

	def release(self):
		with self.cv:
			self.open = self.stop = True
			self.cv.notify_all()

	def controlled(self, f, schedule, threads, look):
		"""f() with its worker threads under the schedule; look() is what is seen at the moment f returns."""
		self.reset()
		threading.settrace(self.tracer)
		s = threading.Thread(target=self.run, args=(schedule, threads), daemon=True)
		s._target_is_scheduler = True
		threading.settrace(None)
		s.start()
		threading.settrace(self.tracer)
		me, wait, join = threading.get_ident(), threading.Condition.wait, threading.Thread.join
		soon = lambda t: t if t is None or threading.get_ident() != me else min(t, 0.002)  # workers may be arbitrarily slow: a wait with a limit reaches it
		threading.Condition.wait = lambda c, timeout=None: wait(c, soon(timeout))
		threading.Thread.join = lambda th, timeout=None: join(th, soon(timeout))
		try:
			f()
			r = look()
		finally:
			threading.Condition.wait, threading.Thread.join = wait, join
			threading.settrace(None)
			steps = len(self.order)
			self.release()
			s.join(5)
		return r, steps
