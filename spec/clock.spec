@fn graph::elapsed_time()
@trusted the clock
@ensures
    r@ >= old(self).start_time.last@, r@ >= 0real, final(self).start_time.last@ == r@,
    *final(self) == (graph { start_time: final(self).start_time, ..*old(self) }),
