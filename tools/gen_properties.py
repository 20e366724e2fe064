#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SU="src/puzzles/sudoku/mod.rs"; NO="src/puzzles/nonogram/mod.rs"; RL="src/puzzles/nonogram/right_left.rs"
MA="src/puzzles/maze/mod.rs"; RB="src/puzzles/maze/recursive_backtrack.rs"
DL="src/structures/dancing_links/mod.rs"; DN="src/structures/dancing_links/node.rs"; DS="src/structures/disjoint_set.rs"
UT="src/util.rs"; LB="src/lib.rs"

# ---------------------------------------------------------------- sudoku
prop("S01","A returned sudoku answer is a correct completion of the puzzle",
 "Whenever the sudoku solver returns an answer, that answer has exactly 81 entries, each 1 to 9, with no digit repeated in any row, column or 3x3 box. Every non-zero entry of the puzzle appears unchanged, in the same position, in the answer.",
 ["inputs"],"every 81-entry puzzle of bytes: solvable, ambiguous, contradictory, complete, empty, with any set of givens, including givens that are not sudoku digits",
 "Five fixed solvable puzzles and one unsolvable one are compared with stored answers; 9^81 grids with any subset of givens exist, and no test has repeated, conflicting, complete, empty or out-of-range givens.",
 [SU,DL,DN],[("constraint table of 324 cell/row/column/box constraints",SU+" SUDOKU_CONSTRAINTS"),("givens become pre-selected rows of an exact cover","src/puzzles/sudoku/mod.rs solve_sudoku"),("cover/uncover search",DL+" solve_helper")],
 ["solve_sudoku"])
prop("S02","The sudoku solver solves every solvable puzzle and refuses only the others",
 "If an 81-entry puzzle of digits 0 to 9 has at least one valid completion, the sudoku solver returns one. If it has none - because givens conflict, because a given is outside 1 to 9, or because no completion exists - the solver reports that there is no solution.",
 ["inputs"],"every 81-entry puzzle; solvability is decided by an independent solver",
 "The tests hold five solvable puzzles and one unsolvable one; whether the verdict is right depends on all givens together (which row, column or box conflicts, how deep the search has to back up), which a handful of samples cannot cover.",
 [SU,DL,DN],[("pre-selecting a row removes every conflicting row","src/structures/dancing_links/mod.rs add_solution"),("smallest-column search with full undo on failure","src/structures/dancing_links/mod.rs solve_helper")],
 ["solve_sudoku"])
prop("S03","Sudoku text is accepted exactly when it is 81 digits, and read faithfully",
 "Parsing sudoku text succeeds exactly when the text consists of 81 ASCII digits, and the result is those digits in order. Text containing any other character is refused with an error that carries the first such character, and all-digit text of another length is refused with an error that carries the number of characters.",
 ["inputs"],"every Unicode string: any length, whitespace, separators, non-ASCII digits, multi-byte characters at any position",
 "Tests parse six valid strings and never a rejected one; both directions of 'exactly when' range over all strings.",
 [SU],[("per-character digit conversion followed by a length check",SU+" parse_sudoku")],["parse_sudoku"])
prop("S04","A printed sudoku shows exactly the given digits, each in its own cell",
 "The printed board is a 900x900 image with the grid drawn the same way for every puzzle, in which each cell with a non-zero entry shows that entry's digit at a fixed place in that cell and each zero cell is blank. Nothing else is drawn, so the puzzle can be read back from the image.",
 ["inputs"],"every 81-entry puzzle of digits 0 to 9, whether or not it is a valid sudoku",
 "Tests compare 11 stored images; a digit misplaced for one position or value combination, or a cell left out, shows only on boards not among them.",
 [SU],[("cell position to pixel position, and grid lines",SU+" print_sudoku")],["print_sudoku"])
prop("S05","Sudoku input of the wrong size is refused, and no input crashes",
 "Solving or printing a puzzle that does not have exactly 81 entries is refused with an error that carries the number of entries. No sequence of bytes of any length and no text makes parsing, solving or printing a sudoku panic.",
 ["inputs"],"every byte slice of any length with any byte values, and every string",
 "No test calls the solver or printer with a wrong size or with values above 9.",
 [SU,DL],[("length checks at the entry of both functions",SU),("bounds of the given-to-row mapping",SU+" solve_sudoku")],["parse_sudoku","solve_sudoku","print_sudoku"])
prop("S06","Solving a sudoku never corrupts or leaks memory",
 "Whatever 81-entry puzzle is given - solvable, contradictory or malformed - solving it touches no memory that it does not own, frees each of its allocations exactly once with the layout it was allocated with, and leaves nothing allocated once its result is dropped. This also holds for the exact-cover engine behind it on any constraint matrix and any sequence of pre-selected rows.",
 ["inputs","histories"],"every puzzle, and every constraint matrix with every sequence of row pre-selections followed by solving or dropping",
 "The tests run natively and would not notice a use after free that happens to read stale data; the Miri step covers ten inputs, none with conflicting givens.",
 [DL,DN,SU],[("manual alloc/dealloc of linked nodes",DN+" Node::new, Node::free_chain"),("freeing covered columns after a pre-selection or on success",DL+" add_solution, solve_helper"),("dropping what is still linked",DL+" Drop")],
 ["solve_sudoku","allocator","AddressSanitizer"],[("rows","one pointer into each row that may still be selected",DL),("root","list of columns still to be satisfied",DL)],
 "feature-flagged re-export of the exact-cover engine, for the second sentence")
# ---------------------------------------------------------------- nonogram
prop("N01","A returned nonogram answer satisfies every clue",
 "Whenever the nonogram solver returns an answer, it has one entry per cell in row-major order, and in every row and every column the lengths of the maximal runs of filled cells, in order, are exactly that line's clue. A clue that is empty or consists of zeros stands for a line with no filled cell.",
 ["inputs"],"every list of column clues and row clues: puzzles that single-line reasoning solves and ones that need guessing, ambiguous and contradictory ones, any width and height, blank and full lines",
 "Four fixed puzzles, all solvable line by line, are compared with stored answers.",
 [NO,RL],[("leftmost/rightmost placement of every clue",RL+" RuleMachine"),("repeating over all lines until nothing changes",NO+" right_left"),("guessing the cells that stay open",NO+" recursive_backtrack")],["solve_nonogram"])
prop("N02","The nonogram solver solves every solvable puzzle and refuses only the others",
 "If some picture satisfies all row and column clues, the nonogram solver returns one that does. If no picture does, it reports that there is no solution.",
 ["inputs"],"every non-empty list of column clues and of row clues; solvability is decided by enumerating pictures or by an independent solver",
 "No test has an unsolvable puzzle or one that needs a guess; refusing a solvable puzzle or accepting an unsolvable one depends on the interplay of all lines.",
 [NO,RL],[("a line that admits no placement is reported",RL+" right_left"),("search over open cells",NO+" recursive_backtrack")],["solve_nonogram"])
prop("N03","No nonogram clues crash the solver, and an empty puzzle is refused as empty",
 "For any lists of clues the nonogram solver returns an answer or an error and never panics or exhausts memory: a puzzle without rows or without columns is reported as an empty puzzle, and a clue that needs more cells than its line has is reported as having no solution. Zeros in a clue never crash it.",
 ["inputs"],"every pair of clue lists: none, one or many lines, empty clues, zeros anywhere, numbers up to the integer maximum",
 "All four tested puzzles are non-empty, have only positive clues and fit their grid.",
 [NO,RL],[("construction of the state machine of a line",RL+" RuleMachine::new"),("slicing the grid into lines",NO+" right_left")],["solve_nonogram"])
prop("N04","Nonogram clue text is accepted exactly when well formed and within bounds",
 "Parsing clue text whose numbers are all positive, or whose lines are a single 0, succeeds exactly when every ';'-separated line is a ','-separated list of unsigned integers whose sum plus one gap between neighbours is at most the bound, and the result is those numbers in order. An item that is not an unsigned integer is reported as an invalid rule carrying that item, and a line that does not fit as an invalid dimension, whichever line is wrong first. No text and no bound makes it panic.",
 ["inputs"],"every string and every bound, including numbers near and above the integer maximum",
 "Tests parse eight valid strings and never a rejected one, and no number that could overflow the sum.",
 [NO],[("splitting, integer parsing, and the size sum",NO+" parse_nonogram_rules")],["parse_nonogram_rules"])
prop("N05","A printed nonogram board shows exactly the given clues at the right lines",
 "The printed board has 50 pixels per cell plus a clue margin of max(150, 10 x number of cells) in each direction, grid lines at the cell boundaries with every fifth one thickened, each column's clue stacked top-down above that column and each row's clue from left to right beside that row. Nothing else is drawn, and a width or height that differs from the number of clues is refused as invalid dimensions.",
 ["inputs"],"every pair of clue lists with any number of lines and any numbers, and every claimed width and height",
 "Tests compare four stored images and never a refused call.",
 [NO],[("text and line positions",NO+" print_nonogram")],["print_nonogram"])
prop("N06","A printed nonogram solution fills exactly the filled cells",
 "Drawing a solution on a board of the stated size paints the inside of exactly the filled cells black and changes no other pixel. A solution or an image whose size does not match the stated width and height is refused as invalid dimensions, and nothing makes the call panic.",
 ["inputs"],"every width, height, image and grid of booleans, matching or not",
 "Tests draw four stored solutions and never a refused call.",
 [NO],[("cell index to pixel rectangle, and size checks",NO+" print_nonogram_solution")],["print_nonogram_solution"])
prop("N07","Every picture can be taken from clue text to a solved, printed puzzle",
 "For any picture, writing its clues as text (with 0 for a line without filled cells), parsing them with the bounds of the grid, solving, and printing board and solution succeeds at every step. The solution drawn on the board has the clues that were written.",
 ["inputs"],"every picture of any width and height, with any number of blank and full lines",
 "No test chains the functions, and no tested puzzle has a blank line.",
 [NO,RL],[("agreement of parser and solver on how a blank line is written",NO+" parse_nonogram_rules; "+RL+" RuleMachine::new")],["parse_nonogram_rules","solve_nonogram","print_nonogram","print_nonogram_solution"])
# ---------------------------------------------------------------- maze
prop("M01","Every created maze is perfect: connected, loop-free, with one way out",
 "A created maze has width x height cells in row-major order, and its open inner walls form a spanning tree of the cells: between any two cells there is exactly one route. The right border is closed everywhere, and the bottom border is open at exactly one cell.",
 ["inputs","histories"],"every width and height of at least 1 (one-cell, one-row, one-column, large) and every sequence of random choices",
 "The maze module has no test at all, and every call draws a different random maze.",
 [RB,MA,DS,UT],[("a wall is opened only between cells not yet connected",RB+" visit_next"),("set of connected cells",DS),("opening the exit",MA+" create_maze")],["create_maze"])
prop("M02","The returned solution is the route from the entrance to the exit",
 "Read from its end to its start, the solution returned with a maze is a list of moves that leads from the top-left cell through open walls only, without visiting a cell twice, to the bottom-row cell whose lower wall is open. It is therefore the shortest route, and it is empty exactly when the first cell is the exit cell.",
 ["inputs","histories"],"every width and height of at least 1, including mazes one cell wide or high, and every sequence of random choices",
 "The maze module has no test; the naming of moves depends on the dimensions and on the route.",
 [MA],[("breadth-first search with parent links, turned into moves",MA+" create_maze")],["create_maze"])
prop("M03","The exit is a bottom-row cell farthest from the entrance",
 "Among the cells of the bottom row, the one that is opened as the exit has the longest route from the entrance.",
 ["inputs","histories"],"every width and height of at least 1 and every sequence of random choices",
 "The maze module has no test; the order of the search is visible only through the choice of the exit.",
 [MA],[("breadth-first order and the count of bottom-row cells reached",MA+" create_maze")],["create_maze"])
prop("M04","Mazes are fair samples of recursive backtracking",
 "Every created maze has the shape of a depth-first walk from the top-left cell: of any two neighbouring cells, one lies on the other's route to the entrance. Over many calls every such maze of a given size occurs, with the probability of a walk that picks each unvisited neighbour equally often.",
 ["inputs","histories"],"every width and height of at least 1; for the distribution, every small size whose walks can be enumerated and thousands of calls each",
 "The maze module has no test; a biased or stuck choice still yields a valid maze in every single call.",
 [RB,UT],[("depth-first walk with a stack of cells",RB+" recursive_backtrack"),("uniform choice among the directions left",UT+" choose_random")],["create_maze"])
prop("M05","A printed maze shows exactly its walls",
 "The printed maze is an image of (10 x width + 1) by (10 x height + 1) pixels, black exactly on the left border, on the top border except at the entrance above the first cell, and along every closed right or lower wall of a cell, and white elsewhere. A grid whose number of cells differs from width x height, or whose image could not exist, is refused as invalid dimensions, and no call panics.",
 ["inputs"],"every width, height and grid of walls, whether or not it is a maze the library created, including zero and absurdly large dimensions that do not match",
 "The maze module has no test.",
 [MA],[("wall to pixel mapping and the size check",MA+" print_maze")],["print_maze"])
prop("M06","The solution of every created maze can be drawn on its picture",
 "For every created maze, drawing its solution on its printed picture succeeds. The red line runs without a gap from the entrance at the top edge through the centres of exactly the cells of the route out of the exit at the bottom edge, never crosses a wall, and every other pixel stays as it was.",
 ["inputs","histories"],"every width and height of at least 1 and every sequence of random choices",
 "The maze module has no test; no test chains creation, printing and drawing.",
 [MA],[("bounds checks and pixel positions of every move",MA+" print_maze_solution")],["create_maze","print_maze","print_maze_solution"])
prop("M07","Any list of moves is drawn exactly or refused as invalid",
 "A list of moves that stays within the cells of a maze picture and ends in its bottom row is drawn as a red line along exactly the cells visited, changing no other pixel. One that leaves the cells is refused as an invalid solution, an image of less than 6 pixels in either direction as invalid dimensions, and nothing makes the call panic.",
 ["inputs"],"every list of moves (any length, revisiting cells, leaving on each side) and every image size",
 "The maze module has no test; refusals depend on where the walk leaves the picture.",
 [MA],[("bounds checks of each of the four moves and of the way out",MA+" print_maze_solution")],["print_maze_solution"])
prop("M08","Mazes and solutions survive serialisation unchanged",
 "Serialising a maze's cells and its solution and reading them back gives the same walls and the same moves, in text and binary formats, so that the restored maze prints the same pictures. Each cell carries its two wall flags independently, and each of the four directions stays itself.",
 ["inputs"],"every list of cells and of directions, in JSON, CBOR and bincode",
 "No test serialises anything.",
 [MA],[("derived serialisation of cells and directions",MA+" MazeNode, MazeDirection")],["MazeNode","MazeDirection","print_maze"])
# ---------------------------------------------------------------- image
prop("I01","PNG export is lossless",
 "Exporting any image with at least one pixel gives a valid PNG which, decoded, has the same width, height and pixels, and exporting it again gives the same bytes. Exporting an image without pixels is refused with an error.",
 ["inputs"],"every RGB image of any size and content, including every picture that the printers produce",
 "The exported function is not called by any test.",
 [LB],[("encoding into a memory buffer",LB+" image_to_png_bytes")],["image_to_png_bytes"])
# ---------------------------------------------------------------- whole pipelines
prop("S07","A sudoku text goes through parsing, solving, printing and export",
 "For any solvable puzzle given as text, every step succeeds: parsing, solving, printing the puzzle and the answer, and exporting both as PNG. From the exported pictures one can read back the puzzle as given and a correct completion of it.",
 ["inputs"],"every solvable puzzle text",
 "The tests exercise each step with a few fixed inputs and never the chain.",
 [SU,LB,DL],[("the four steps",SU+" parse_sudoku, solve_sudoku, print_sudoku; "+LB+" image_to_png_bytes")],["parse_sudoku","solve_sudoku","print_sudoku","image_to_png_bytes"])
prop("S08","Solving a sudoku takes little time",
 "A solvable sudoku puzzle that a search by the most constrained choice solves within a few thousand guesses is answered within a fraction of a second, whatever its givens: minimal puzzles and published hard ones included.",
 ["inputs"],"every solvable puzzle of moderate difficulty, as measured by an independent solver's guesses",
 "Tests have no time limits, and their puzzles are easy for any search order; the effect of a bad choice of constraint shows only on some puzzles.",
 [DL,DN,SU],[("choice of the constraint with fewest rows",DL+" solve_helper"),("row counts kept up to date in both directions",DN+" cover_column, uncover_column")],["solve_sudoku"])
prop("N08","Solving a nonogram that needs no guessing takes time in line with its size",
 "A nonogram whose squares all follow from single lines - by comparing each line's leftmost and rightmost placement, again and again - is solved within a time in line with the number of squares: a fraction of a second for 50 x 50.",
 ["inputs"],"every puzzle that can be solved line by line, of any size",
 "Tests have no time limits and hold no large puzzles; where a line yields less than it should, the missing squares are guessed, which is still right for small puzzles.",
 [NO,RL],[("overlap of the leftmost and rightmost placement of each line",RL+" right_left"),("passes until nothing changes",NO+" right_left")],["solve_nonogram"])
prop("M09","A created maze can be solved on paper",
 "A maze that is created, possibly saved and restored, printed, drawn with its solution and exported shows, in the exported pictures alone: exactly one way in (top left) and one way out (bottom edge), every corridor reachable, no loops, and one unbroken line without detours from the entrance to the exit that crosses no wall.",
 ["inputs"],"every maze size and random state, and every serialisation format",
 "The maze module has no test, and no test looks at more than one step of the chain.",
 [MA,RB,LB],[("creation, serialisation, printing and drawing",MA)],["create_maze","MazeNode","MazeDirection","print_maze","print_maze_solution","image_to_png_bytes"])
prop("M10","Very large mazes are created and drawn",
 "Mazes of millions of cells, of any shape, are created, and mazes of a hundred thousand cells are printed, drawn with their solution and exported, without exhausting a normal thread's stack and in time in line with the number of cells.",
 ["inputs"],"every shape up to several million cells and every random state",
 "The maze module has no test; recursion depth and time that grows faster than the maze show only at sizes no test would try.",
 [MA,RB,DS],[("explicit stack instead of recursion",RB),("near-constant time set operations",DS),("search for the solution",MA+" create_maze")],["create_maze","print_maze","print_maze_solution","image_to_png_bytes"])
prop("E01","The message of a refusal names what was wrong",
 "When an input is refused, the displayed message names the offending part: the first character of a sudoku text that is not a digit, the number of entries or characters of a sudoku of the wrong length, and the item of a nonogram clue that is not a number, in full.",
 ["inputs"],"every refused sudoku text, sudoku entry list and nonogram clue text",
 "Tests match the kind of one error or two, and never look at a message.",
 [SU,NO],[("error types with their messages",SU+" SudokuError; "+NO+" NonogramError")],["parse_sudoku","solve_sudoku","print_sudoku","parse_nonogram_rules"])
# ---------------------------------------------------------------- structures
prop("X01","The exact-cover engine finds a cover exactly when one exists",
 "For any constraint matrix, the exact-cover engine returns a set of distinct rows that together satisfy every constraint exactly once if such a set exists. Otherwise it reports that there is no solution.",
 ["inputs"],"every matrix: empty, with constraints no row satisfies, identical constraints, rows in any order, deep backtracking",
 "Two small matrices are tested; the search with undo has far more behaviours than they exercise, and sudoku matrices have one fixed shape.",
 [DL,DN],[("cover/uncover of columns and recursion",DL+" solve_helper; "+DN+" cover_column, uncover_column")],["the engine's constructor and solve, through the hook"],None,"feature-flagged re-export of the exact-cover engine")
prop("X02","Pre-selected rows are honoured or refused, in any sequence",
 "A row can be pre-selected exactly when it exists, satisfies some constraint and conflicts with no row pre-selected before; otherwise the request is refused (as out of range if the row does not exist) and has no effect. After any sequence of requests, solving returns a cover that contains every accepted row if one exists, and otherwise reports that there is none.",
 ["histories"],"every matrix and every sequence of pre-selections, accepted, repeated, conflicting and out of range, followed by solving",
 "Two sequences of one and two pre-selections are tested.",
 [DL,DN],[("removal of the rows in conflict with a pre-selected one",DL+" add_solution")],["the engine's pre-selection and solve, through the hook"],[("rows","one pointer into each row that may still be selected",DL),("partial_solution","rows selected so far",DL)],"feature-flagged re-export of the exact-cover engine")
prop("X03","The set of connected cells behaves as a partition under any history",
 "After any sequence of additions, unions and queries, two elements are reported as connected exactly when a chain of unions links them, and each element's representative is a member of its own set that is the same for all its members. Requests that name an element that does not exist return nothing and change nothing.",
 ["histories"],"every sequence of add, union, find and connectedness queries, on any number of elements",
 "Tests run a few fixed unions; path compression and union by size interact over histories.",
 [DS],[("parent links with path compression and union by size",DS)],["the set's operations, through the hook"],[("elements","parent link or, at a root, size",DS)],"feature-flagged re-export of the disjoint set")
prop("U01","A random pick removes exactly the element it returns, fairly",
 "Picking at random from a list returns nothing exactly when the list is empty; otherwise the returned element is one of the list's and the list afterwards holds exactly the others. Each position is picked equally often.",
 ["inputs","histories"],"every list of any length with repeated elements, every random state, and repeated picking until empty",
 "One test picks once from one list of five distinct elements, and checks only that the picked one is gone.",
 [UT],[("random index and swap_remove",UT+" choose_random")],["the pick, through the hook"],None,"feature-flagged re-export of the pick")
# ---------------------------------------------------------------- cross-cutting
prop("P01","Calls take time and memory in line with the size of their arguments and result",
 "Reading clue and sudoku text, drawing boards, mazes and solutions, exporting images and creating mazes take processor time and memory at most in proportion to the size of what they are given and what they return. Arguments that are refused cost no more than arguments of that size that are accepted, whatever sizes they ask for. Solving takes memory in proportion to the puzzle's size (for nonograms, the square of its sides) when no guess is needed.",
 ["inputs"],"every call of these functions: texts, boards, mazes and images from one cell to millions of characters, cells, moves and pixels, accepted or refused",
 "Tests use inputs of a few cells, for which a quadratic step or an image allocated before a check costs nothing.",
 [NO,SU,MA,RB,LB],[("one pass over the text",NO+" parse_nonogram_rules"),("checks before the image is allocated",MA+" print_maze"),("one pass over cells and moves",MA+" print_maze_solution")],
 ["processor time of the calling thread","bytes allocated at the same time"])
prop("R01","Calls keep no memory",
 "Once its result is dropped, no call of any public function keeps memory that grows with the number of calls made: in any sequence of calls of a function on different arguments, accepted or refused, the memory in use stays bounded.",
 ["histories"],"every sequence of calls of each public function on different puzzles, mazes and images of any size",
 "Each test makes one call and ends; what is kept per call adds up only in a process that makes many.",
 [SU,NO,MA,DL,DN,LB],[("all results and intermediate values are owned by the caller or freed",LB),("manual freeing of nodes",DN)],
 ["bytes allocated and not freed by the calling thread"])
prop("C01","Calls are independent of each other",
 "The result of parsing, solving, printing or exporting depends only on the arguments: in any sequence of calls, with refused ones and other puzzles in between, the same arguments give the same result as when called first. Maze creation, whatever was called before, yields a valid maze with a valid solution.",
 ["histories"],"every sequence of calls to all public functions with related and repeated arguments",
 "Each test makes one or two calls; state carried from one call to the next shows only in longer sequences.",
 [SU,NO,MA,LB],[("no state outside the arguments",LB)],["all public functions"])
prop("C02","Concurrent calls do not disturb each other",
 "Calls made at the same time from several threads give the same results as the same calls made one after another.",
 ["schedules","histories"],"several threads each running any sequence of calls, under the schedules the operating system produces",
 "Each test makes its calls from one thread and compares only its own result.",
 [SU,NO,MA,LB],[("no shared mutable state",LB)],["all public functions"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
except ImportError: pass
print(len(P), "properties")
