"""Depth-first enumeration of every sequence of choices an environment can make (stateless search)."""


def every_choice(execution, first=()):
    """Run `execution(choose)` once per distinct sequence of choices; `choose(n)` picks one of range(n).

    `first` fixes the leading choices, so that a tree can be split into cases. Returns the number of runs.
    """
    path = [[c, None] for c in first]
    fixed = len(path)
    runs = 0
    while True:
        at = [0]

        def choose(n):
            i = at[0]
            at[0] += 1
            if i == len(path):
                path.append([0, n])
            path[i][1] = n
            return path[i][0]
        execution(choose)
        runs += 1
        if at[0] < len(path) and runs == 1:
            # The run ended inside the fixed choices: nothing else to vary.
            del path[at[0]:]
            if at[0] <= fixed:
                return runs
        while len(path) > fixed and path[-1][0] + 1 >= path[-1][1]:
            path.pop()
        if len(path) <= fixed:
            return runs
        path[-1][0] += 1
