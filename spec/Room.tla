-------------------------------- MODULE Room --------------------------------
\* There is room for another element: pages that must be taken up by a span of kept bytes before the queue may report
\* that it is full.  eff is what a page takes at least, (usable size) - (largest element).  The page that the span begins
\* in and the one that is being filled may hold next to nothing of it.
EXTENDS Integers
Room(span, pages, eff) == span <= (pages - 2) * eff
=============================================================================
