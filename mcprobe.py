"""Imported by the bodies of functions under test, to tell the harness that they run."""
ran = []
sink = None          # if set, also called with each note


def note(*what):
    ran.append(what)
    if sink is not None:
        sink(what)
    return len(ran)


go = None            # a harness function called by bodies under test
