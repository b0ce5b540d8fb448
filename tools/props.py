import json
P=[]
OB='program/src/state/orderbook.rs'; CB='program/src/state/critbit.rs'; EQ='program/src/state/event_queue.rs'; MS='program/src/state/market_state.rs'
PR='program/src/processor/'
def p(id,title,stmt,over,text,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
ORD="every valid resting book, every order (side, limit price, both caps, match limit, flags, self-trade mode, owner), every minimum order size and event queue state"
WHY_M="The matching tests run a handful of fixed orders against one or two makers at round prices; the guarantee is over every book, price, size and flag combination."
BOOK=[('bids / asks slabs','resting orders, keyed by price and sequence number',CB),('event queue','FIFO of fills and departures',EQ)]
p('C01','The book never stays crossed','After any order that is accepted, the best bid price is strictly below the best ask price whenever both sides hold orders, provided this was so before.',['inputs','histories'],ORD+'; by induction every history',WHY_M,[OB],[('matching loop and the crossed test before posting',OB)],['bids and asks accounts after a new order'],BOOK)
p('C02','Price-time priority','A new order consumes resting orders strictly from the best price towards the worst, and among equal prices from the earliest posted to the latest: no resting order is filled or removed by matching while a better one remains on the book untouched.',['inputs','histories'],ORD,WHY_M,[OB,CB,EQ],[('best order lookup each step',OB),('key order encodes price then time',EQ)],['fill and out events','book after the order'],BOOK)
p('C03','Limit price and quantity caps are respected','Every fill happens at a resting price no worse for the taker than its limit price, a posted remainder rests exactly at the limit price, and the base and quote amounts filled (and, in total, filled plus posted) never exceed the order\'s maximum base and maximum quote amounts.',['inputs'],ORD,WHY_M,[OB],[('crossing test','matching loop, '+OB),('min of the three caps','matching loop, '+OB)],['fill events','order summary','book'])
p('C04','Fill amounts follow the maker price with maker-favouring rounding','Each fill trades a positive base amount no larger than what the maker had left, for a positive quote amount equal to base times the maker\'s 32.32 fixed-point price, rounded up when the taker buys and down when the taker sells.',['inputs'],ORD,'Tests use prices that divide evenly; rounding at fractional prices and near the 64-bit limits is not sampled.',[OB],[('fixed-point multiply with ceil / floor',OB)],['fill events'])
p('C05','The order summary tells the truth','The summary returned for an order reports exactly: total base = base filled plus base posted; total quote = quote of the fills plus the rounded value of the posted remainder at the limit price; posted base and posted order id = those of the order actually resting on the book, or zero and none.',['inputs'],ORD,WHY_M,[OB],[('OrderSummary construction at every exit',OB)],['order summary','fill events','book'])
p('C06','Resting quantity is conserved','For every resting order, the quantity it had equals the sum of its fills plus what it still holds or the amount reported when it left; orders not concerned keep quantity and owner, no order appears except at most one posted by the taker, nothing rests below the minimum order size, and an order that traded leaves the book only once less than the minimum order size is left of it.',['inputs','histories'],ORD,WHY_M,[OB,CB],[('quantity decrement and small-remainder removal',OB)],['book before and after','events'],BOOK)
p('C07','Every departure is announced exactly once','Each resting order that leaves the book while a new order is processed has exactly one out event, after its fills, naming its side, its order id, its owner and the quantity left unfilled, and no out event is emitted for an order that stays.',['inputs'],ORD,WHY_M,[OB,EQ],[('out events on removal, cancel-provide and eviction',OB)],['event queue'],BOOK)
p('C08','Matching is complete, bounded and fails only for cause','Matching proceeds until the match limit is used up, nothing crosses any more, or the remaining amounts cannot trade one unit; it never performs more matching steps than the match limit; and an order on a valid book fails only for a self-trade the caller asked to abort on or a full event queue, never with another error or a panic.',['inputs'],ORD,'Tests never exhaust the match limit mid-book and never approach arithmetic limits.',[OB],[('loop exits and match_limit',OB)],['result','events','book'])
p('C09','Fill events identify both parties','Every fill event carries the taker\'s side, the id of the resting order it consumed, that order\'s owner information and the taker\'s own information.',['inputs'],ORD,WHY_M,[OB,EQ],[('push of a fill with both callback infos',OB)],['event queue'])
p('C10','Self-trade policy is honoured','An order never fills against a resting order of the same owner unless decrement-take was asked for; with cancel-provide such an order is removed whole, without a fill, when it is reached; the order is aborted for self-trade exactly in abort mode and only when an own order within its limit is reached.',['inputs'],ORD,'Two fixed scenarios are tested; interleaved owners, partial fills before the self-trade and zero-quantity corners are not.',[OB],[('self trade switch in the matching loop',OB)],['result','events','book'])
p('C11','Post-only and no-post flags are honoured','A post-only order never fills or removes an opposite order, and if it would cross it has no effect and reports zeros; an order for which posting is not allowed never leaves anything on the book.',['inputs'],ORD,'Post-only is not exercised by the tests.',[OB],[('post_only / post_allowed tests',OB)],['events','book','summary'])
p('C12','The remainder rests exactly when it may, in full','With room on its side, an order\'s remainder is posted if and only if posting is allowed, the match limit was not used up, it crosses nothing, and the remainder affordable at the limit price under both caps reaches the minimum order size; the posted quantity is the largest both caps allow and belongs to the taker.',['inputs'],ORD,WHY_M,[OB],[('base_qty_to_post and the posting test',OB)],['book','summary'])
p('C13','A full side evicts only its worst order, for a better one','When the order\'s side is full, a postable remainder evicts exactly the least aggressive resting order of that side, only if the new limit price is strictly more aggressive than it, with one out event for its whole remaining quantity and owner; otherwise nothing is posted, nothing is evicted, and the summary covers the fills alone.',['inputs'],ORD+'; own side filled to capacity','Two booting tests with two slots and round prices.',[OB,CB],[('SlabOutOfSpace branch',OB)],['events','book','summary'])
p('C14','Order ids are unique and encode side, price and arrival','Every posted order gets an id never given to another resting order, from which the limit price and the side can be read back, and later orders at the same price always rank behind earlier ones on either side; the sequence number never goes back.',['inputs','histories'],ORD,'Tests compare ids of a few orders only; uniqueness and ordering are over all histories.',[EQ,OB],[('gen_order_id',EQ)],['summary','book','queue header'])
p('C15','Cancelling removes exactly the named order','Cancelling the id of a resting order removes that order and no other and reports its remaining base quantity and the rounded-down quote value; cancelling an id that is not resting fails and changes nothing; the event queue and market parameters are untouched.',['inputs'],'every book, every 128-bit order id, every layout of the stored book','The functional test cancels one order of a tiny book; the id space and the tree shapes are not sampled.',[PR+'cancel_order.rs',CB],[('process',PR+'cancel_order.rs'),('remove_by_key',CB)],['book accounts','summary'],BOOK)
p('C16','Mass cancellation removes exactly the named orders','A mass cancellation succeeds exactly when all listed ids are resting and distinct (amounts permitting), removes those orders and no others, and reports the totals of their base quantities and of their rounded-down quote values.',['inputs'],'every book and every list of ids within the bounds','No test runs a mass cancellation.',[PR+'mass_cancel_orders.rs',CB],[('process',PR+'mass_cancel_orders.rs')],['book accounts','summary'],BOOK)
p('C17','The order slab is a faithful sorted map','After any insertion or removal the slab holds exactly the expected set of orders with their quantities and owner information, minimum, maximum, lookup and ordered iteration agree with that set, unused slots remain available for reuse, and a removal of an absent key changes nothing.',['inputs','histories'],'every tree shape and every slot/free-list layout up to the capacity bound, every key','The randomised unit test samples one key distribution and one layout order; corruption needs particular shapes and free-list states.',[CB],[('insert_leaf / remove_by_key / find_* / iterators',CB)],['slab accessors','raw slab account'],[('header roots and counters','root, leaf count, bump indices, free list heads',CB)])
p('C18','The event queue is a FIFO that never loses or overwrites','Appending to the queue puts the event and its owner information at the back if a slot is free and otherwise fails leaving the queue unchanged; events already queued are never altered; popping removes the oldest first; reading and iterating give the queued events in order, also across the wrap-around.',['inputs','histories'],'every head, count and content of the ring, every operation','Tests never fill the ring or wrap it around.',[EQ],[('push_back / pop_n / peek_at / iter',EQ)],['queue account','event queue accessors'],[('head, count','ring position',EQ)])
p('C19','Consuming removes exactly the requested oldest events','Consuming n events removes the min(n, queued) oldest ones and leaves the rest in order, the sequence number and everything else unchanged.',['inputs'],'every queue state, every 64-bit n','One consume call in the functional test.',[PR+'consume_events.rs',EQ],[('process',PR+'consume_events.rs'),('pop_n',EQ)],['queue account'])
p('C20','A market is created only from fresh, funded, well-formed accounts','Creation succeeds exactly when all four accounts are uninitialised, rent-exempt and of proper size and the tick size and minimum order size are positive; the market then records the three account keys and both parameters, and both sides and the queue are empty, tagged and usable.',['inputs'],'every parameter, balance, tag and key','One successful creation is tested; no failing one.',[PR+'create_market.rs',MS,CB,EQ],[('process and check_rent',PR+'create_market.rs')],['the four accounts'])
p('C21','A market closes only when empty, and returns all lamports','Closing succeeds exactly when both sides hold no order and no event is queued; all four accounts are then marked disabled and all their lamports, no more and no less, arrive at the target; otherwise it is refused.',['inputs'],'every book and queue occupancy, every balance','One close of an empty market is tested.',[PR+'close_market.rs'],[('process',PR+'close_market.rs')],['the accounts and lamports'])
p('C22','Only the market\'s own accounts are accepted','Each instruction is rejected unless the state accounts it relies on are owned by the program, carry the tag of their role, and are the ones recorded in the market; a set of proper accounts is not rejected.',['inputs'],'every owner, key and tag of every account passed to every instruction','Tests always pass the right accounts.',[PR+'new_order.rs',PR+'cancel_order.rs',PR+'mass_cancel_orders.rs',PR+'consume_events.rs',PR+'close_market.rs',PR+'create_market.rs',MS,CB,EQ],[('perform_checks / check_accounts / from_buffer',PR)],['result of each instruction'])
p('C23','Every resting price is a positive multiple of the tick size','An order whose limit price is not a multiple of the tick size, or is below one tick while posting is allowed, is refused; consequently all resting prices stay positive multiples of the tick size, and proper prices are never refused.',['inputs','histories'],'every tick size, limit price and book on ticks','Tests use tick size 1 only.',[PR+'new_order.rs'],[('limit price checks',PR+'new_order.rs')],['result','book'])
p('C24','Instructions encode, decode and dispatch faithfully','For each instruction, the client-side builder produces data and an account list that the program decodes to the very same parameters and accounts, in order and with the writable flags the operation needs, and the program runs the operation the builder is named for; no signature is demanded of an account; unknown instruction bytes and data cut short are refused.',['inputs'],'every parameter value of every instruction; every first byte','The tests only use the builders for a few instructions; none checks mass cancel.',['program/src/instruction.rs','program/src/processor.rs'],[('builders','program/src/instruction.rs'),('process_instruction','program/src/processor.rs')],['Instruction data and account metas','dispatch'])
p('C25','Price rounding goes to the nearest tick on the safe side','Rounding a price to the tick size yields a multiple of it: the largest not above the price for a bid, the smallest not below for an ask, whenever that value fits 64 bits.',['inputs'],'every tick size, price and side','No test.',['program/src/utils.rs'],[('round_price','program/src/utils.rs')],['return value'])
p('C26','Computed account sizes hold what was asked for','A book side or event queue account allocated with the computed size for n entries is accepted and holds exactly n entries: n orders fit (the next one is out of space) and n events fit; sizes that the size check accepts are never rejected or misread when opened.',['inputs','configurations'],'every requested capacity within the bound, and buffer length','Tests use two capacities.',[CB,EQ],[('compute_allocation_size / from_buffer / check_buffer_size',CB)],['slab and queue opened on a buffer'])
p('C27','The off-chain reader reports the book as stored','The WebAssembly reader, given a book stored in the format it reads, finds the true best order of either end and reports depth as the total quantity per price level, in the requested direction, for exactly the first levels up to the requested depth, counting every order of each level.',['inputs'],'every valid stored book within the bound, every depth and direction','It has no tests.',['js/wasm/src/critbit.rs','js/wasm/src/lib.rs'],[('find_min / find_max / find_l2_depth','js/wasm/src/lib.rs')],['exported functions'])
p('C28','The program returns the summary through the register account','An accepted new order, cancellation or mass cancellation through the program entrypoint leaves the encoded order summary at the start of the register account, decodable to the very summary of the operation.',['inputs'],'every valid market state and instruction within the bound','Tests read it in one or two runs only.',['program/src/entrypoint.rs','program/src/processor.rs'],[('process_instruction','program/src/entrypoint.rs')],['register account'])
p('C29','Reported best prices are the best','The reported spread gives exactly the highest bid and the lowest ask price, and none for an empty side; the best-order lookup returns the order with priority on each side, and nothing is modified by looking.',['inputs'],'every book and stored layout within the bound','Only printed, not asserted, by the tests.',[OB,'program/src/utils.rs',CB],[('get_spread / find_bbo',OB)],['return values'])
p('C30','Settings, tags and lamports stay put','From its creation until it is closed, no instruction changes a market\'s recorded accounts, tick size, minimum order size or the tags of its accounts; no instruction but closing changes any account\'s lamports; cancelling leaves the event queue as it was, and consuming leaves the book as it was.',['inputs'],'every valid market state and instruction within the bound, through the program entrypoint','Tests look at the results they expect, not at what should not have moved.',['program/src/entrypoint.rs','program/src/processor.rs','program/src/processor/'],[('process_instruction','program/src/entrypoint.rs'),('MarketState::from_buffer','program/src/state/market_state.rs')],['account data','lamports'])
p('C31','A refusal names its cause','When exactly one thing is wrong with an instruction, the error it returns is the documented one for that thing: the owner of which account, which recorded account does not match, an account tag, a price off the tick, a full event queue, a self trade to be aborted, an order that is not there, a market still in use.',['inputs'],'every valid market state and instruction with one fault, within the bound','Tests use one or two faults, mostly without looking at the code returned.',['program/src/error.rs','program/src/processor/','program/src/state/orderbook.rs'],[('process and check_accounts of each instruction','program/src/processor/'),('AoError','program/src/error.rs')],['returned error code'])
p('C32','The TypeScript client reads what the program stored','Given an account written by the program, the TypeScript client reports what is in it: the tag, settings and accounts of the market; the orders of a side with quantity and owner in price order, the best ones, the order of a given id or none, and the total quantity of exactly the first price levels asked for; the queued events and fills oldest first; it fetches the sides of a market from the addresses the market records; and it computes the sizes of new accounts as the program does.',['inputs'],'every valid stored side, queue and market within the bound, every id, depth and direction','The client has no test that runs without a validator.',['js/src/slab.ts','js/src/event_queue.ts','js/src/market_state.ts','js/src/utils.ts'],[('getNodeByKey / items / getMinMaxNodes / getL2DepthJS','js/src/slab.ts'),('parse / peekAt / parseFill','js/src/event_queue.ts'),('deserialize','js/src/market_state.ts')],['return values'])
import sys
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,S); assert len(d['title'])<=80,d['title']
print(len(P))
