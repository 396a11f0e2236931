From 3289bcbdbb0dfd0d7ae7fd9dbb40d289bf5def77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 01/12] fix: keep the local search granularity within the
 neighbor lists

With fewer neighbors than local_search_granularity the slices of the
correlation matrix were read outside of their rows.
---
 src/solver/improvement/local_search.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 5085db1..45f659e 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -80,7 +80,9 @@ impl LocalSearch {
                     num_vehicles,
                     ctx.problem.dim(),
                 ),
-                granularity: ctx.config.borrow().local_search_granularity as usize,
+                // The neighbor lists can be shorter than the configured granularity
+                granularity: (ctx.config.borrow().local_search_granularity as usize)
+                    .min(ctx.matrix_provider.correlation.get(0).len()),
                 correlation: ctx.matrix_provider.correlation.clone(),
                 routes: routes,
                 move_count: 0,
@@ -160,7 +162,7 @@ impl LocalSearch {
                 let cor = &mut *{
                     self.correlation.top_slice_mut(*u_index, self.granularity) as *mut [usize]
                 };
-                if self.ctx.random.range_usize(0, self.granularity) == 0 {
+                if self.granularity > 0 && self.ctx.random.range_usize(0, self.granularity) == 0 {
                     self.ctx
                         .random
                         .shuffle(self.correlation.top_slice_mut(*u_index, self.granularity));
-- 
2.43.0


From 96404ca83c20c648ca686a8c4e2bc6e65517bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 02/12] fix: crossover of a single customer does not look for
 two cut points

It looped forever as the end is required to differ from the start.
---
 src/solver/genetic/genetic.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index ddfd35c..8acdabd 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -65,6 +65,14 @@ impl GeneticAlgorithm {
         parent_one: &Individual,
         parent_two: &Individual,
     ) -> Individual {
+        // There are no two different cut points with a single customer
+        if parent_one.genotype.len() < 2 {
+            return Individual::new(
+                parent_one.genotype.clone(),
+                self.population.total_individuals_count,
+            );
+        }
+
         // Randomly select start of the crossover zone
         let start = ctx.random.range_usize(0, parent_one.genotype.len());
 
-- 
2.43.0


From b1e36e39c5e30659e3e1b8d274288cb2475e4882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 03/12] fix: seed the hash state of the ruined routes

Their iteration order decides between equally cheap insertions, so
deterministic runs differed.
---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 2368413..2238bbc 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -40,7 +40,7 @@ impl RuinRecreateSolution {
         Self {
             routes,
             unassigned,
-            ruined_routes: HashSet::with_hasher(RandomState::new()),
+            ruined_routes: HashSet::with_hasher(ctx.random.random_state()),
             locations,
             cost: f64::INFINITY,
         }
-- 
2.43.0


From 1bb37d02e316076d64f968aebcc8160ec2aaf604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 04/12] fix: evaluate the loaded R&R solution before copying it

The first step compared its candidate with the cost of the previously
loaded solution.
---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 2238bbc..1dcf53b 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -176,9 +176,9 @@ impl RuinRecreate {
 
         // Load solution
         self.solution.load(individual);
-        self.current_solution = self.solution.clone();
         let routes: Vec<usize> = (0..self.solution.routes.len()).into_iter().collect();
         self.solution.evaluate(self.ctx, routes.iter());
+        self.current_solution = self.solution.clone();
         self.acceptance.reset();
         // self.acceptance.print();
 
-- 
2.43.0


From d14584eb9501d91ba31adbc4bae7374daadd24a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 05/12] fix: reset temperature and completion of a time
 schedule

---
 src/solver/improvement/ruin_recreate/schedule.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/improvement/ruin_recreate/schedule.rs b/src/solver/improvement/ruin_recreate/schedule.rs
index 8dbc737..8b03a5f 100644
--- a/src/solver/improvement/ruin_recreate/schedule.rs
+++ b/src/solver/improvement/ruin_recreate/schedule.rs
@@ -158,6 +158,8 @@ impl Acceptance for TimeSchedule {
         self.start = Instant::now();
         self.iterations = 0;
         self.iterations_since_update = 0;
+        self.temp = self.start_temp;
+        self.completed = false;
     }
 
     fn print(&self) {
-- 
2.43.0


From 6ccf32ff5f1264067ad2d11ba280d44fb0c0b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 06/12] fix: broken pairs distance looks at the node's own
 successor

As the comment says: neither its predecessor nor its successor in the
other individual is the depot.
---
 src/solver/genetic/individual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/genetic/individual.rs b/src/solver/genetic/individual.rs
index 481d778..634d6ba 100644
--- a/src/solver/genetic/individual.rs
+++ b/src/solver/genetic/individual.rs
@@ -115,7 +115,7 @@ impl Individual {
             // If the predecessor of self is a depot, but neither the predecessor or successor of the other is a depot
             if self.predecessor(index) == 0
                 && other.predecessor(index) != 0
-                && other.successor(0) != 0
+                && other.successor(index) != 0
             {
                 distance += 1;
             }
-- 
2.43.0


From bacb793585bea6587649f5e749400a2f8b804092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 07/12] fix: depot moves of the local search place u right
 after the depot

They repeated the moves relative to v instead.
---
 src/solver/improvement/local_search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 45f659e..1dab7c2 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -201,10 +201,10 @@ impl LocalSearch {
                         let v_pred = (*v).predecessor;
                         if (*v_pred).is_depot() {
                             for m in moves.depot.iter() {
-                                let delta = m.delta(&self, u, v);
+                                let delta = m.delta(&self, u, v_pred);
                                 if delta.approx_lt(0.0) {
                                     self.move_count += 1;
-                                    m.perform(self, u, v);
+                                    m.perform(self, u, v_pred);
                                     route_u = (*u).route;
                                     improvement = true;
                                     continue 'v_loop;
-- 
2.43.0


From 331242f40d5635ad27add3e5c6d6a99e610892c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 08/12] fix: count the iterations of the decomposed genetic
 algorithm

max_iterations was ignored.
---
 src/solver/genetic/decomposition.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 78e886c..16067d8 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -78,6 +78,8 @@ impl Metaheuristic for DecomposedGeneticAlgorithm {
                 self.state = State::Cycle;
             }
             State::Cycle => {
+                ctx.next_iteration();
+
                 // panic!("{:?}", self.global_solution);
                 // println!("{:?}", self.global_solution);
                 // self.global_solution.print();
-- 
2.43.0


From b364e6c0c2901cf3097df786f8abb1c62ae3f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 09/12] fix: a circle sector at angle zero is not an empty one

Extending it replaced the sector instead of growing it.
---
 src/models/circle_sector.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/models/circle_sector.rs b/src/models/circle_sector.rs
index fcbd570..97b69a3 100644
--- a/src/models/circle_sector.rs
+++ b/src/models/circle_sector.rs
@@ -6,25 +6,33 @@ const MAX_ANGLE: i32 = 65536;
 pub struct CircleSector {
     pub start: i32,
     pub end: i32,
+    // No angle is added yet
+    empty: bool,
 }
 
 impl CircleSector {
     pub fn new() -> Self {
-        Self { start: 0, end: 0 }
+        Self {
+            start: 0,
+            end: 0,
+            empty: true,
+        }
     }
 
     pub fn reset(&mut self) {
         self.start = 0;
         self.end = 0;
+        self.empty = true;
     }
 
     pub fn from_angle(&mut self, angle: i32) {
         self.start = angle;
         self.end = angle;
+        self.empty = false;
     }
 
     pub fn extend(&mut self, angle: i32) {
-        if self.start == 0 && self.end == 0 {
+        if self.empty {
             self.from_angle(angle);
         } else {
             if !self.is_enclosed(angle) {
-- 
2.43.0


From 284fdff3c43fe54695395d7089199cf858745927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 10/12] fix: only arguments that are given take precedence over
 config.yml

The defaults of -t, -r and -o always replaced the configured values,
and the value of -r was ignored.
---
 src/cli.rs    | 13 ++++++-------
 src/config.rs | 10 ++++++++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 3c47c90..f161ec9 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -6,7 +6,7 @@ pub struct Args {
     pub solution_path: Option<String>,
     pub time_limit: Option<u64>,
     pub max_iterations: Option<u64>,
-    pub rounded: bool,
+    pub rounded: Option<bool>,
 }
 
 impl Args {
@@ -25,8 +25,7 @@ impl Args {
                 Arg::with_name("solution_path")
                     .short("o")
                     .takes_value(true)
-                    .default_value("output.sol")
-                    .help("Path to solution output"),
+                    .help("Path to solution output, output.sol if not configured"),
             )
             .arg(
                 Arg::with_name("iterations")
@@ -38,15 +37,13 @@ impl Args {
                 Arg::with_name("time_limit")
                     .short("t")
                     .takes_value(true)
-                    .default_value("10")
                     .help("Time limit in seconds"),
             )
             .arg(
                 Arg::with_name("rounded")
                     .short("r")
                     .takes_value(true)
-                    .default_value("true")
-                    .help("Rounded distances"),
+                    .help("Rounded distances, true or false"),
             )
             .get_matches();
 
@@ -65,7 +62,9 @@ impl Args {
             .value_of("time_limit")
             .map(|value| value.parse::<u64>().expect("Invalid time limit argument!"));
 
-        let rounded = matches.is_present("rounded");
+        let rounded = matches
+            .value_of("rounded")
+            .map(|value| value.parse::<bool>().expect("Invalid rounded argument!"));
 
         Self {
             instance_path,
diff --git a/src/config.rs b/src/config.rs
index b1a5ef6..c969e13 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -213,13 +213,19 @@ impl Config {
     /// Update config with command line arguments
     pub fn update_from_args(&mut self, args: &Args) {
         self.instance_path = args.instance_path.clone();
-        self.solution_path = args.solution_path.clone();
+        if let Some(solution_path) = args.solution_path.as_ref() {
+            self.solution_path = Some(solution_path.clone());
+        } else if self.solution_path.is_none() {
+            self.solution_path = Some(String::from("output.sol"));
+        }
         if let Some(max_iterations) = args.max_iterations {
             self.max_iterations_without_improvement = max_iterations;
         }
         if let Some(time_limit) = args.time_limit {
             self.time_limit = time_limit;
         }
-        self.round_distances = args.rounded;
+        if let Some(rounded) = args.rounded {
+            self.round_distances = rounded;
+        }
     }
 }
-- 
2.43.0


From 053ab9dfa541a20f586a736316d198d56e59b6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 11/12] fix: merge a decomposed subproblem into the fleet of
 the global solution

The merged solution got more or fewer routes than vehicles, which stopped
the ruin-and-recreate search that follows, and a subproblem without a
feasible solution panicked. The result is now the best one recorded by
the subproblem, also when ruin-and-recreate has found it.
---
 src/solver/genetic/decomposition.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 16067d8..d819ca5 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -165,7 +165,18 @@ impl<'a> Decomposition<'a> {
             sub_ga.iterate(&self.ctx);
         }
 
-        self.solution = sub_ga.best_solution.unwrap();
+        // Keep the initial solution if no feasible one is found that leaves enough vehicles
+        // for the remaining routes
+        let search_history = self.ctx.search_history.borrow();
+        if let Some(best) = search_history.last_entry() {
+            let num_routes = best.solution.routes.iter().filter(|r| !r.is_empty()).count();
+            let num_vehicles = self.ctx.config.borrow().num_vehicles as usize;
+            if num_routes + self.global.num_nonempty_routes() <= num_vehicles {
+                self.solution.phenotype = best.solution.routes.clone();
+                self.solution.sort_routes(&self.ctx);
+                self.solution.evaluate(&self.ctx);
+            }
+        }
     }
 
     pub fn finish(self, ctx: &Context) {
@@ -178,6 +189,10 @@ impl<'a> Decomposition<'a> {
                 self.global.phenotype.push(new_route);
             }
         }
+        // Keep the number of routes of the global solution
+        let num_vehicles = ctx.config.borrow().num_vehicles as usize;
+        self.global.phenotype.retain(|route| !route.is_empty());
+        self.global.phenotype.resize(num_vehicles, Vec::new());
         self.global.genotype = self.global.phenotype.iter().flatten().copied().collect();
         self.global.sort_routes(ctx);
         self.global.evaluate(ctx);
-- 
2.43.0


From d44bd35deee2e3a48bd568b650f7293325d9e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 12/12] fix: simple split falls back to the linear one for a
 tight fleet

When no split within the load limit used so few routes, the routes were
read from unset labels and customers got lost.
---
 src/solver/genetic/split.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/split.rs b/src/solver/genetic/split.rs
index ce64233..f638d1b 100644
--- a/src/solver/genetic/split.rs
+++ b/src/solver/genetic/split.rs
@@ -297,13 +297,26 @@ impl Split {
         ctx: &Context,
         individual: &mut Individual,
         max_vehicles: usize,
+    ) -> bool {
+        let linear_split = ctx.config.borrow().linear_split;
+        // The load limit of the simple split may leave no path with so few routes
+        self.split_limited_fleet_with(ctx, individual, max_vehicles, linear_split)
+            || (!linear_split && self.split_limited_fleet_with(ctx, individual, max_vehicles, true))
+    }
+
+    fn split_limited_fleet_with(
+        &mut self,
+        ctx: &Context,
+        individual: &mut Individual,
+        max_vehicles: usize,
+        linear_split: bool,
     ) -> bool {
         self.reset(true);
         let dim = ctx.problem.dim();
         let cap = ctx.problem.vehicle.cap;
         let capacity_factor = ctx.config.borrow().split_capacity_factor;
 
-        if ctx.config.borrow().linear_split {
+        if linear_split {
             let mut queue: MyVecDeque<usize> = MyVecDeque::new(ctx.problem.dim());
 
             for k in 0..max_vehicles {
@@ -394,6 +407,10 @@ impl Split {
             }
         }
 
+        if min_cost > 1e29 {
+            return false;
+        }
+
         individual.phenotype.clear();
         let mut end = ctx.problem.dim() - 1;
         let mut vehicle_number = num_routes;
-- 
2.43.0

